"""pyvc: contract-based verification-condition generator for the real PyrusGeom source.

The functions of /repo/src/pyrusgeom are parsed on every run, mechanically instrumented
(see loader.py for the exact list of rewrites) and executed over symbolic values; every
path yields proof obligations that are discharged by z3 / cvc5.
"""
