"""Path exploration, obligations and loop invariants."""
import os
import sys
import time

import z3

TIMEOUT_MS = 8000


class EngineExc(BaseException):
    pass


class PathEnd(EngineExc):
    """This path is finished (infeasible, or cut at a loop head)."""


class Unsupported(EngineExc):
    """The code left the subset the generator models."""


class Undecided(EngineExc):
    pass


class _Unbound:
    """Value of a local the loop cut forgets (temporaries of earlier iterations)."""

    def _no(self, *a, **k):
        raise Unsupported('use of a loop temporary outside its iteration')

    __getattr__ = __bool__ = __eq__ = __hash__ = __iter__ = __call__ = __len__ = __str__ = _no


UNBOUND = _Unbound()

E = None            # the active Explorer, None when inactive


def active():
    return E is not None


class Obligation:
    __slots__ = ('unit', 'name', 'status', 'model', 'detail', 'secs', 'solver')

    def __init__(self, unit, name, status, model=None, detail='', secs=0.0, solver='z3'):
        self.unit, self.name, self.status = unit, name, status
        self.model, self.detail, self.secs, self.solver = model, detail, secs, solver


class Path:
    def __init__(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pos = 0
        self.pc = []
        self.fresh = {}
        self.loops = []          # loops currently in step mode, innermost last
        self.loopcount = 0
        self.serial = 0
        self.tracked = {}        # id(obj) -> (serial, obj)
        self.refs = {}           # concrete python object id -> (ref int, obj)
        self.refobjs = {}        # ref int -> obj
        self.wrapcache = {}
        self.dead = False
        self.notes = []
        self.cleanup = []
        self.specs = []          # spec folds in scope
        self.ghosts = []         # ghost values local variables may keep equal to: (name, () -> term)
        self.invariants = []     # extra invariant candidates: (name, k -> term)
        self.seq_hooks = []      # called with each symbolic sequence about to be iterated
        self.hooked = {}


class LoopInfo:
    def __init__(self):
        self.mod = {}            # cell key -> kind hint (or None)
        self.dropped = set()


class Explorer:
    def __init__(self, unit_name, budget_s=120):
        self.unit = unit_name
        self.obligations = []
        self.table = {}          # loop key -> LoopInfo
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.completed = 0
        self.dirty = False
        self.deadline = time.time() + budget_s
        self.replacements = {}
        self.locals_ = []
        self.assumed = []        # names of callee contracts in use
        self.passes = 0
        self.cvc5 = 0
        self.reached = {}
        self.cut_while = None
        self.loops_cut = set()
        self.unsupported = []    # paths that left the subset: (message, where)
        self.cache, self.cached, self.syms = {}, 0, {}

    # ---- solver
    def check(self, *extra, timeout=TIMEOUT_MS):
        if time.time() > self.deadline:
            raise Undecided('time budget of the unit exhausted')
        return self.solve(self.relevant(self.path.pc, extra) if extra else self.path.pc, extra, timeout)

    def solve(self, hyps, extra, timeout, fresh=False):
        cs = [c for c in hyps if not isinstance(c, bool)] + [c for c in extra if not isinstance(c, bool)]
        if False in [c for c in list(hyps) + list(extra) if isinstance(c, bool)]:
            cs.append(z3.BoolVal(False))
        key = frozenset(c.get_id() for c in cs)
        if not fresh:
            hit = self.cache.get(key)
            if hit is not None and (hit[0] != z3.unknown or hit[1] >= timeout):
                self.cached += 1
                self.last_query = cs
                return hit[0]
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*cs)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        self.cache[key] = (r, timeout, cs)      # the terms stay alive: their ids stay theirs
        self.last_query = cs
        self.last_solver = s
        return r

    def symbols(self, t):
        """The uninterpreted symbols of a term."""
        hit = self.syms.get(t.get_id())
        if hit is not None:
            return hit[0]
        out = set()
        if z3.is_quantifier(t):
            out |= self.symbols(t.body())
        elif z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            for c in t.children():
                out |= self.symbols(c)
        out = frozenset(out)
        self.syms[t.get_id()] = (out, t)
        return out

    def relevant(self, pc, extra):
        """The hypotheses that share symbols, directly or through others, with a query.

        Leaving hypotheses out is sound for 'unsat'; 'sat' is confirmed with all of them where it is reported.
        """
        seen = set()
        for c in extra:
            if not isinstance(c, bool):
                seen |= self.symbols(c)
        rest = [(i, c, self.symbols(c)) for i, c in enumerate(pc) if not isinstance(c, bool)]
        out = [(i, c) for i, c in enumerate(pc) if isinstance(c, bool)]
        while True:
            more = [x for x in rest if not x[2] or x[2] & seen]
            if not more:
                break
            for i, c, sy in more:
                out.append((i, c))
                seen |= sy
            ids = {x[0] for x in more}
            rest = [x for x in rest if x[0] not in ids]
        return [c for i, c in sorted(out, key=lambda x: x[0])]

    # ---- decisions
    def branch(self, cond):
        p = self.path
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if p.dead:
            raise PathEnd()
        if p.pos < len(p.prefix):
            d = p.prefix[p.pos]
        else:
            neg = z3.Not(cond)
            t = self.check(cond, timeout=2000)
            if t == z3.unsat:
                f = z3.sat
            else:
                f = self.check(neg, timeout=2000)
            if t == z3.unsat and f == z3.unsat:
                self.end()
            if t != z3.unsat and f != z3.unsat:
                self.work.append(p.decisions + [False])
                d = True
            else:
                d = t != z3.unsat
        p.pos += 1
        p.decisions.append(d)
        p.pc.append(cond if d else z3.Not(cond))
        return d

    def choice(self, n, label=''):
        """A non-deterministic choice among range(n)."""
        p = self.path
        if p.dead:
            raise PathEnd()
        if p.pos < len(p.prefix):
            d = p.prefix[p.pos]
        else:
            for i in range(n - 1, 0, -1):
                self.work.append(p.decisions + [i])
            d = 0
        p.pos += 1
        p.decisions.append(d)
        return d

    def end(self):
        self.path.dead = True
        raise PathEnd()

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                self.end()
            return
        self.path.pc.append(cond)

    def fresh(self, name, sort):
        p = self.path
        i = p.fresh.get(name, 0)
        p.fresh[name] = i + 1
        return z3.Const('%s!%d' % (name, i) if i else name, sort)

    # ---- obligations
    def entailed(self, cond, timeout=TIMEOUT_MS):
        """'proved' | 'refuted' | 'unknown', plus a model text."""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return 'proved', None, 'simplifier'
        r = self.check(z3.Not(cond), timeout=timeout)
        if r == z3.unsat:
            return 'proved', None, 'z3'
        if r == z3.sat:
            r = self.solve(self.path.pc, (z3.Not(cond),), timeout, fresh=True)
            if r == z3.unsat:
                return 'proved', None, 'z3'
            if r == z3.sat:
                return 'refuted', self.last_solver.model(), 'z3'
        from . import smt2
        sv = z3.Solver()
        sv.add(*self.last_query)
        r2 = smt2.cvc5_check(sv)
        self.cvc5 += 1
        if r2 == 'unsat':
            return 'proved', None, 'cvc5'
        if r2 == 'sat' and len(self.last_query) >= len(self.path.pc):
            return 'refuted', None, 'cvc5'
        return 'unknown', None, 'z3+cvc5'

    def prove(self, name, cond, detail=''):
        p = self.path
        if p.dead:
            return
        t = time.time()
        if hasattr(cond, 'term'):
            cond = cond.term
        st, model, solver = self.entailed(cond)
        mt = None
        if st == 'refuted':
            if self.check() == z3.unsat:     # vacuous path
                self.end()
            mt = render_model(model)
        self.obligations.append(Obligation(
            self.unit, name, st, mt, detail if st != 'proved' else '', time.time() - t, solver))
        self.reached[name] = self.reached.get(name, 0) + 1
        if st == 'proved' and not isinstance(cond, bool):
            p.pc.append(cond)

    # ---- exploration
    def explore(self, body):
        """Run body() on every path, to a fixpoint of loop frames and invariants."""
        global E
        while True:
            self.passes += 1
            if self.passes > 60:
                raise Undecided('no fixpoint of loop invariants')
            self.dirty = False
            self.obligations = []
            self.paths = self.completed = 0
            self.reached = {}
            self.work = [[]]
            self.unsupported = []
            while self.work:
                prefix = self.work.pop()
                self.path = Path(prefix)
                self.paths += 1
                if self.paths > 4000:
                    raise Undecided('too many paths')
                assert E is None
                E = self
                self.replacements = {}
                self.locals_ = []
                self.cut_while = None
                try:
                    body()
                    if not self.path.dead and self.check() != z3.unsat:
                        self.completed += 1
                except PathEnd:
                    pass
                except (Unsupported, Undecided) as exc:
                    # the other paths are still explored: what they refute is refuted
                    self.unsupported.append((exc, self.path.decisions[:20]))
                    if time.time() > self.deadline or len(self.unsupported) > 50:
                        raise
                except Exception as exc:
                    if self.path.dead:
                        pass
                    elif raised_by_program(exc):
                        # an explicit raise in the code under contract that the contract does not allow
                        self.prove('no unexpected error', False, repr(exc)[:300])
                    else:
                        self.unsupported.append((exc, self.path.decisions[:20]))
                        if len(self.unsupported) > 50:
                            raise
                finally:
                    E = None
                    for f in reversed(self.path.cleanup):
                        f()
            if not self.dirty:
                break
        return self


def raised_by_program(exc):
    import linecache
    import traceback
    fr = traceback.extract_tb(exc.__traceback__)
    if not fr:
        return False
    root = os.environ.get('PYVC_REPO', '/repo').rstrip('/') + '/'
    f = fr[-1]
    return f.filename.startswith(root) and linecache.getline(f.filename, f.lineno).strip().startswith('raise ')


def render_model(m):
    if m is None:
        return None
    out = []
    try:
        for d in m.decls():
            if d.arity() == 0:
                out.append('%s = %s' % (d.name(), m[d]))
        for d in m.decls():
            if d.arity() > 0:
                out.append('%s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:200]))
    except Exception as exc:            # rendering only
        out.append('<%s>' % exc)
    return out[:60]


def cur():
    if E is None:
        raise RuntimeError('no verification run is active')
    return E


# ---------------------------------------------------------------- heap tracking
def track(obj):
    """Give obj a serial number stable across re-executions of the same path prefix."""
    p = E.path
    if id(obj) not in p.tracked:
        p.serial += 1
        p.tracked[id(obj)] = (p.serial, obj)
    return obj


def serial_of(obj):
    t = E.path.tracked.get(id(obj))
    return t[0] if t else None


def log_write(obj, attr, kind=None):
    """Record a heap write for every loop whose body is executing."""
    p = E.path
    if not p.loops:
        return
    s = serial_of(obj)
    for lp in p.loops:
        lp.wrote(obj, s, attr, kind)


# ---------------------------------------------------------------- loops
class SymLoop:
    """A loop cut: one arbitrary iteration, or the state after the loop."""
    sym = True

    def __init__(self, site, frame, names, length, at, is_while=False):
        e = cur()
        self.e = e
        self.site = site
        self.at = at
        self.is_while = is_while
        p = e.path
        self.entry_serial = p.serial
        self.key = (tuple(p.decisions), p.loopcount, site.split('@')[0])
        p.loopcount += 1
        e.loops_cut.add(site.split('@')[0])
        self.info = e.table.setdefault(self.key, LoopInfo())
        self.names = names
        self.n = length
        self.frame_locals = frame.f_locals
        self.done = False
        self.stepping = False
        from . import values as V
        self.V = V
        # entry values of the cells
        self.init = {}
        for cell in sorted(self.info.mod, key=repr):
            self.init[cell] = self.read(cell, frame)
        # local variables assigned by the loop
        self.linit = {}
        for nme in names:
            v = dict(frame.f_locals).get(nme, UNBOUND)
            k = V.scalar_kind(v)
            if k is not None and ('L', nme) not in self.info.mod:
                self.linit[('L', nme)] = v
            if k is not None:
                self.init[('L', nme)] = v
        # initiation
        zero = z3.IntVal(0)
        specs = e.path.specs
        for sp in specs:
            sp.unfold(zero, init=True)
        self.check_candidates(zero, {c: v for c, v in self.init.items()}, 'init')
        # arbitrary iteration or exit
        for c in self.init:
            if c[0] == 'H':
                log_write(p_obj(c[1]), c[2], self.info.mod.get(c))
        if is_while:
            self.mode = 0
        else:
            self.mode = e.choice(2, 'loop')
        if self.mode == 0:
            k = e.fresh('k', z3.IntSort())
            e.assume(k >= 0)
            if length is not None:
                e.assume(k < length)
        else:
            k = length
            e.assume(k >= 0)
        self.k = k
        self.state = {}
        self.empty = set()
        self.changed = False
        for c, v in self.init.items():
            self.state[c] = self.havoc(c, v)
            nv = self.state[c]
            if c[0] == 'L' and type(nv) is V.VList and nv.items is not None:
                self.empty.add(c)
        for sp in specs:
            if self.mode == 0:
                sp.unfold(k)
            else:
                sp.unfold(k, last=True)
        for name, cond in self.candidates(k, self.state):
            if name not in self.info.dropped:
                e.assume(cond)
        if self.mode == 0 and e.check(timeout=2000) == z3.unsat:
            e.end()

    # -- cells
    def read(self, cell, frame=None):
        if cell[0] == 'L':
            return self.frame_locals.get(cell[1], UNBOUND)
        _, serial, attr = cell
        obj = p_obj(serial)
        if attr is None:
            return obj
        return getattr(obj, attr)

    def havoc(self, cell, v):
        kind = self.info.mod.get(cell)
        if cell[0] == 'L':
            return self.V.havoc_scalar('loop_' + cell[1], v, kind)
        _, serial, attr = cell
        obj = p_obj(serial)
        if attr is None:
            obj.vc_havoc(kind)
            return obj
        nv = self.V.havoc_scalar('loop_' + attr, v, kind)
        object.__setattr__(obj, attr, nv)
        return nv

    def wrote(self, obj, serial, attr, kind):
        if self.done or not self.stepping:
            return
        if attr is None and obj is getattr(self, 'source', None):
            self.source_written = True
        if serial is None:
            raise Unsupported('write to an untracked object of type %s in a cut loop' % type(obj).__name__)
        if serial > self.entry_serial:
            return
        cell = ('H', serial, attr)
        if cell not in self.info.mod:
            self.info.mod[cell] = kind
            self.e.dirty = self.changed = True
        elif self.info.mod[cell] is None and kind is not None:
            self.info.mod[cell] = kind
            self.e.dirty = self.changed = True
        elif isinstance(kind, self.V.Kind) and isinstance(self.info.mod[cell], self.V.Kind):
            u = self.V.unify(self.info.mod[cell], kind)
            if u.sort != self.info.mod[cell].sort:
                self.info.mod[cell] = u          # elements of several kinds: explored again
                self.e.dirty = self.changed = True
                self.e.end()

    def local(self, name):
        c = ('L', name)
        if c in self.state:
            return self.state[c]
        return UNBOUND

    # -- candidates
    def candidates(self, k, state):
        V = self.V
        out = []
        for c in sorted(state, key=repr):
            v = state[c]
            t = V.cell_term(v, self.info.mod.get(c))
            t0 = self.init_terms.get(c) if hasattr(self, 'init_terms') else None
            if t is None:
                continue
            out.extend(V.cell_candidates(repr(c), t, t0, k, self.e.path.specs))
        for sp in self.e.path.specs:
            for nm, cond in sp.pure(k):
                out.append((nm, cond))
        for nm, fn in self.e.path.ghosts:
            g = fn()
            for c in sorted(state, key=repr):
                if c[0] != 'L':
                    continue
                t = V.cell_term(state[c], self.info.mod.get(c))
                if not isinstance(t, z3.ExprRef):
                    continue
                if t.sort() == g.sort():
                    out.append(('%s = %s' % (c, nm), t == g))
                elif t.sort() == z3.IntSort() and g.sort() == z3.BoolSort():
                    out.append(('%s is %s' % (c, nm), t == z3.If(g, z3.IntVal(1), z3.IntVal(0))))
                elif t.sort() == z3.BoolSort() and g.sort() == z3.IntSort():
                    out.append(('%s is %s' % (c, nm), g == z3.If(t, z3.IntVal(1), z3.IntVal(0))))
        for nm, fn in self.e.path.invariants:
            try:
                cond = fn(k)
            except Exception as exc:
                raise Unsupported('invariant %s: %r' % (nm, exc))
            if cond is not None:
                out.append((nm, cond.term if hasattr(cond, 'term') else cond))
        return out

    def check_candidates(self, k, state, what):
        if what == 'init':
            self.init_terms = {}
            for c, v in state.items():
                self.init_terms[c] = self.V.cell_term(v, self.info.mod.get(c))
        for name, cond in self.candidates(k, state):
            if name in self.info.dropped:
                continue
            st, model, solver = self.e.entailed(cond, timeout=3000)
            if st == 'proved':
                self.e.obligations.append(Obligation(
                    self.e.unit, 'loop invariant %s (%s)' % (self.site.split('@')[0], what),
                    'proved', solver=solver))
            else:
                self.info.dropped.add(name)
                self.e.dirty = True

    # -- iteration protocol
    def __iter__(self):
        return self

    def leave(self):
        p = self.e.path
        if self in p.loops:
            del p.loops[p.loops.index(self):]

    def __next__(self):
        p = self.e.path
        if self.mode == 1:
            raise StopIteration
        if not self.stepping:
            self.stepping = True
            p.loops.append(self)
            return self.at(self.k) if self.at else None
        # end of the arbitrary iteration
        if getattr(self, 'source_written', False):
            import collections
            if self.source.cls is not collections.deque:
                raise Unsupported('a list is modified while a cut loop iterates over it')
            self.e.prove('no deque is modified while it is iterated over', False)
            self.e.end()
        self.stepping = False
        frame = sys._getframe(1)
        fl = frame.f_locals
        state = {}
        for c in self.init:
            if c[0] == 'L':
                v = fl.get(c[1], UNBOUND)
                state[c] = v
            else:
                state[c] = self.read(c)
        # a local scalar that is overwritten by something of another kind: record the kind
        for c in list(state):
            if c[0] == 'L':
                kd = self.V.scalar_kind(state[c])
                if c in self.empty and not (state[c] is self.state[c] and state[c].items == []):
                    v = state[c]
                    if kd != 'seq':
                        raise Unsupported('element kind of a reassigned sequence is unknown')
                    if not (v.items is not None and v.items == []):
                        g = v.kind if v.items is None else v.guess_kind()
                        if g is None:
                            raise Unsupported('element kind of a reassigned sequence is unknown')
                        self.info.mod[c] = g
                        self.e.dirty = self.changed = True
                k0 = self.V.scalar_kind(self.init[c])
                if kd != k0 or kd is None:
                    want = 'any' if (self.V.any_ok(state[c]) and self.V.any_ok(self.init[c])) else 'drop'
                    if self.info.mod.get(c) != want:
                        self.info.mod[c] = want
                        self.e.dirty = True
        if self.changed:
            self.e.end()         # the frame grew: explored again with the larger frame
        for sp in p.specs:
            sp.unfold(self.k + 1, last=True)
        self.check_candidates(self.k + 1, state, 'preserved')
        self.e.end()


def p_obj(serial):
    for s, o in E.path.tracked.values():
        if s == serial:
            return o
    raise Unsupported('loop frame: object %d does not exist on this path' % serial)
