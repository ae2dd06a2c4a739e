"""Second back end: the same query, printed as SMT-LIB, given to cvc5."""
import subprocess


def cvc5_check(solver, timeout_s=10):
    text = '(set-logic ALL)\n' + solver.to_smt2()
    text = text.replace('(set-info :status unknown)', '')
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--strings-exp', '--tlimit=%d' % (timeout_s * 1000)],
                           input=text, capture_output=True, text=True, timeout=timeout_s + 5)
    except (OSError, subprocess.TimeoutExpired):
        return 'unknown'
    out = r.stdout.strip().splitlines()
    return out[-1] if out and out[-1] in ('sat', 'unsat') else 'unknown'
