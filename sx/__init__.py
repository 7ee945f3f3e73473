"""Symbolic execution of the real r_u_sure sources with z3 as the decider."""
