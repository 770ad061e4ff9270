"""symx: symbolic execution of CDTB's own Python source with Z3.

The package loads the modules of /repo/cdtb from their current source, rewrites
the AST so that every operation CPython would perform in C on concrete values
goes through symbolic-aware operators, and runs the result with symbolic
inputs, exploring every feasible path (depth first, solver decided).
"""
