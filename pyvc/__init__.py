"""pyvc: a verification-condition generator for the real Python sources in /repo.

See DESIGN.md.  transform.py rewrites a module's syntax tree mechanically, loader.py loads the
rewritten modules from /repo on every run, core.py executes them symbolically over z3 terms,
collecting one obligation per contract clause and path, loops being cut at inductive invariants.
"""
