"""vsym: dynamic symbolic execution of vtelem's real source with z3."""
