"""C27: executables run with exactly the command line, environment, directory and name described."""
import os
import re
import shlex

from .common import *
import launch.descriptions.executable as D
from launch.descriptions import Executable
from launch.substitutions import LaunchConfiguration, TextSubstitution

X = 'launch.descriptions.executable:Executable.'
SPLIT = uf('shlex.split', StrS, z3.SeqSort(StrS))
BASE = uf('os.path.basename', StrS, StrS)
MATCH = uf('re.match is not None', StrS, StrS, BoolS)
ASSUMES = NORM_ASSUMES + ('shlex.split, os.path.basename, re.match: uninterpreted',)


class One(Subs):
    """A normalized list of substitutions: iterating gives one substitution that expands to its text."""

    def __iter__(self):
        return iter([self])

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def perform(self, ctx):
        return StrK.wrap(expand(self, ctx.launch_configurations))


OneK = ObjK('substitutions', One)


def outside(ctx):
    """Contracts for expanding, splitting and matching."""
    def norm(x):
        if isinstance(x, (str, SymStr)):
            return [new(TextSubstitution, text=x)]
        if isinstance(x, LaunchConfiguration):
            return [x]
        if isinstance(x, (list, VList)) and rt.to_vlist(x).items is not None:
            return [new(TextSubstitution, text=y) if isinstance(y, str) else y for y in rt.to_vlist(x).items]
        if isinstance(x, One):
            return x
        raise Unsupported('normalizing %r' % type(x))

    def perf(c, x):
        prove('expanded in the given context', c is ctx)
        if isinstance(x, One):
            return x.perform(c)
        if isinstance(x, (list, VList)) and rt.to_vlist(x).items is not None:
            r = StrK.wrap(StringVal(''))
            for y in rt.to_vlist(x).items:
                r = r + (y.perform(c) if isinstance(y, One) else do(y.perform, c))
            return r
        raise Unsupported('expansion of %r' % type(x))
    use_contract(LUT_NORM, norm)
    use_contract(LUT_PERF, perf)

    def match(p, s, flags=0):
        if flags:
            raise Unsupported('flags of a pattern')
        return object() if BoolK.wrap(MATCH(StrK.unwrap(p), StrK.unwrap(s))) else None

    class Pattern(Fake):
        def __init__(self, p):
            self.p = p

        def match(self, s):
            return match(self.p, s)
    patch(D, 're', Facade(re, match=match, compile=lambda p: Pattern(p)))
    patch(D, 'shlex', Facade(shlex, split=lambda t: VList(kind=StrK, term=SPLIT(StrK.unwrap(t)), cls=list)))
    patch(D, 'os', Facade(os, path=Facade(os.path, basename=lambda t: StrK.wrap(BASE(StrK.unwrap(t))))))


def setting(d, name):
    """The text of a launch configuration, nothing if it is not set."""
    p, v = d.arrays(StrK, StrK)
    return If(p[StringVal(name)], v[StringVal(name)], StringVal(''))


@unit('C27', [X + '__init__', X + 'prepare', X + 'final_cmd', X + 'final_name', X + 'final_cwd'], assumes=ASSUMES)
def command_line():
    ctx, env = context()
    outside(ctx)
    seq = fresh_seq('cmd', OneK, cls=list)
    n = z3.Length(seq.term)
    E().assume(n > 0)
    args = fresh_seq('arguments', OneK, cls=list) if choose(2) else None
    own, named, where = choose(3), bool(choose(2)), bool(choose(2))
    prefix, name, cwd = fresh_obj('prefix', OneK), fresh_obj('name', OneK), fresh_obj('cwd', OneK)
    if own == 2:
        prefix = ''
    E().path.refkind = OneK
    E().assume(MapFold('cmd as given', seq, lambda x: x, OneK).full == seq.term)
    if args is not None:
        E().assume(MapFold('arguments as given', args, lambda x: x, OneK).full == args.term)
    k = dict([('prefix', prefix)] if own else [], **dict(name=name) if named else {}, **dict(cwd=cwd) if where else {},
             **dict(arguments=args) if args is not None else {})
    s = new(Executable, cmd=seq, **k)
    havoc(ctx.launch_configurations)
    d = snap(ctx.launch_configurations)
    both = seq.term if args is None else z3.Concat(seq.term, args.term)
    words = MapFold('words', VList(kind=OneK, term=both, cls=list), lambda x: expand(x, d), StrK)
    words.unfold(IntVal(0))
    kept = words.full
    do(s.prepare, ctx, Fake())
    first = expand(OneK.wrap(seq.term[0]), d)
    pre = StringVal('') if own == 2 else expand(prefix, d) if own else setting(d, 'launch-prefix')
    applies = z3.BoolVal(True) if own else MATCH(setting(d, 'launch-prefix-filter'), BASE(first))
    want = If(applies, z3.Concat(SPLIT(pre), kept), kept)
    got = rt.to_vlist(s.final_cmd).as_term(StrK)
    prove('the words of the prefix if it applies, then each part expanded, then the extra arguments', got == want)
    shown = expand(name, d) if named else BASE(got[0])
    prove('the name given or that of the program', z3.PrefixOf(Concat(shown, StringVal('-')), StrK.unwrap(s.final_name)))
    prove('the directory given or none', StrK.unwrap(s.final_cwd) == expand(cwd, d) if where else s.final_cwd is None)
    same('configurations stay', ctx.launch_configurations, d)


@unit('C27', [X + '__init__', X + 'prepare', X + 'final_name'], assumes=ASSUMES)
def numbered():
    """No two executions have the same name."""
    ctx, env = context()
    outside(ctx)
    a, b = [new(Executable, cmd=[fresh_obj('cmd', OneK)], name=fresh_obj('name', OneK)) for _ in range(2)]
    names, texts = [], []
    start = fresh_int('executions so far')
    E().assume(start.term >= 0)
    patch(D, '_executable_process_counter', start)
    held, numbers = [], []

    class Lock(Fake):
        """Other threads go on once it is released, and before it is taken."""

        def others(self):
            k = fresh_int('by other threads')
            E().assume(k.term >= 0)
            D._executable_process_counter = D._executable_process_counter + k

        def __enter__(self):
            prove('taken once', not held)
            self.others()
            held.append(IntK.unwrap(D._executable_process_counter))

        def __exit__(self, *a):
            numbers.append((held.pop(), IntK.unwrap(D._executable_process_counter)))
            self.others()
            return False
    patch(D, '_executable_process_counter_lock', Lock())
    for s in ((a, a, b), (a, b, a), (b, b, b))[choose(3)]:
        do(s.prepare, ctx, Fake())
        names.append(StrK.unwrap(s.final_name))
        texts.append(expand(s.name, ctx.launch_configurations))
    prove('numbered under the lock, one at a time', And(z3.BoolVal(len(numbers) == 3), *[b > a for a, b in numbers]))
    for (before, number), text, name in zip(numbers, texts, names):
        got = z3.SubString(name, Length(text) + 1, Length(name))
        prove('the number of its own', got == StrK.unwrap(rt.call(str, IntK.wrap(number))))
    for i in range(3):
        for j in range(i):
            prove('different names even if given the same one', Implies(texts[i] == texts[j], names[i] != names[j]))


@unit('C27', [X + '__init__', X + 'prepare', X + 'final_env'],
      assumes=ASSUMES + ('up to two variables in env and in additional_env',))
def environment():
    ctx, env = context()
    outside(ctx)
    def entries(what):
        c = choose(4)
        return None if c == 3 else {fresh_obj('%s name' % what, OneK): fresh_obj('%s value' % what, OneK) for _ in range(c)}
    given, more = entries('env'), entries('additional')
    s = new(Executable, cmd=[fresh_obj('cmd', OneK)], **dict(env=given) if given is not None else {},
            **dict(additional_env=more) if more is not None else {})
    spec = [(k, v) for m in (given, more) for k, v in (m or {}).items()]
    for m in (given, more):
        if m and choose(2):
            m.clear()       # what the caller does with its dictionary later
            break
    havoc(ctx.launch_configurations)
    havoc(ctx.environment)
    d, e = ctx.launch_configurations, snap(ctx.environment)
    do(s.prepare, ctx, Fake())
    got = s.final_env
    got = got if isinstance(got, VDict) else rt.to_vdict(got) if hasattr(rt, 'to_vdict') else got
    want = empty_dict(StrK, StrK) if given is not None else snap(e)
    for k, v in spec:
        want[StrK.wrap(expand(k, d))] = StrK.wrap(expand(v, d))
    for again in range(2):
        same('the variables given, else those of the launch, with the additional ones', got, want)
        same('the environment of the launch stays', ctx.environment, e)
        havoc(ctx.environment)       # later changes are no matter
        e = snap(ctx.environment)


# ---------------------------------------------------------------- commands of launch files
import launch.actions.execute_process as EP           # noqa: E402
from launch.actions import ExecuteProcess             # noqa: E402

P = 'launch.actions.execute_process:ExecuteProcess.'
TEXTS = ['a', ' ', ' a', 'a ', ' a ', 'a b', "'a b'", ' a b c', 'a b c d ', '""', " '' ", '-x="p q"', "\n  a\tb\n", 'a"b c"d', '  ', r'a\ b', r'"a \" b" c', r"'a\' b"]


@unit('C27', [P + '_parse_cmdline'], assumes=('up to three pieces, of texts of a list of 18 (quotes closed within a text)',), budget=200)
def command_text():
    """A command text is split in words as a shell does; what a substitution gives is never split."""
    pieces, subs, flat = [], [], ''
    text = False
    for i in range(choose(5)):
        text = not text and bool(choose(2))      # two texts in a row are one
        if text:
            t = TEXTS[choose(len(TEXTS))]
            flat += t
            pieces.append(new(TextSubstitution, text=t))
        else:
            subs.append(fresh_obj('substitution', SubK))
            flat += chr(0xe000 + len(subs) - 1)
            pieces.append(subs[-1])

    class Parser(Fake):
        def parse_substitution(self, x):
            prove('the text is parsed', x == 'the text')
            return list(pieces)
    r = [rt.to_vlist(w).items for w in rt.to_vlist(do(ExecuteProcess._parse_cmdline, 'the text', Parser())).items]
    got = [''.join(y.text if type(y) is TextSubstitution else chr(0xe000 + [y is z for z in subs].index(True)) for y in w) for w in r]
    prove('the words a shell makes of it', got == shlex.split(flat), '%r: %r' % (flat, got))


@unit('C27', [P + '__init__', P + 'name', P + 'cmd', P + 'cwd', P + 'env', P + 'additional_env', 'launch.actions.execute_local:ExecuteLocal.process_description'],
      assumes=('up to two options at a time',))
def process_action():
    """The action runs the executable of its arguments."""
    names = ('prefix', 'name', 'cwd', 'env', 'additional_env')
    given = {'cmd': [fresh_obj('cmd', OneK)]}
    for _ in range(2):
        n = choose(len(names) + 1)
        if n < len(names):
            given[names[n]] = {} if 'env' in names[n] else fresh_obj(names[n], OneK)
    made = []

    class Desc(Fake):
        final_name = final_cmd = final_cwd = final_env = None

        def __init__(self, k):
            self.k = k
            for n in names + ('cmd',):
                setattr(self, n, k.get(n))

    def construct(**k):
        made.append(Desc(k))
        return made[-1]
    use_contract(Executable, construct)
    quiet()
    tty, shell, term, kill = bool(choose(2)), bool(choose(2)), [fresh_obj('substitution', SubK)], [fresh_obj('substitution', SubK)]
    a = new(ExecuteProcess, **given, shell=shell, emulate_tty=tty, sigterm_timeout=term, sigkill_timeout=kill)
    prove('one executable', len(made) == 1)
    k = made[0].k
    prove('of the arguments of the action', all(k.get(n) is given.get(n) for n in names + ('cmd',)) and not k.get('arguments') and set(k) <= set(names) | {'cmd', 'arguments'})
    prove('run with the other options', a.process_description is made[0] and a.shell is shell and a.emulate_tty is tty
          and list(a.sigterm_timeout) == term and list(a.sigkill_timeout) == kill)
    prepared = bool(choose(2))
    if prepared:
        for n in ('name', 'cmd', 'cwd', 'env'):
            setattr(made[0], 'final_' + n, [] if n == 'cmd' else fresh_str(n))
    for n in ('name', 'cmd', 'cwd', 'env'):
        prove('the %s as run once prepared, as given before' % n, getattr(a, n) is getattr(made[0], ('final_' if prepared else '') + n))
    prove('additional variables as given', a.additional_env is given.get('additional_env'))


from .execlocal import Process, T, World               # noqa: E402
from launch.events.process import ProcessExited, ProcessStarted   # noqa: E402


@unit('C27', [T + '__init__', T + 'prepare', T + 'execute', T + '__execute_process'],
      assumes=('async_execute_process: starts the process and returns its transport and protocol, or raises',), budget=100)
def started():
    """The process is started, and announced, as its description says once prepared."""
    w = Process()
    prove('prepared once, when executed', w.desc.prepared == 1)
    k, r = outcome(w.run)
    prove('the run does not fail', k == 'ok', repr(r))
    prove('not prepared again', w.desc.prepared == 1)
    for e in w.ctx.events:
        prove('announced as described', e.process_name == 'proc' and e.cmd == ['cmd', 'arg'] and e.cwd == '/cwd' and e.env == {'VAR': 'value'})
