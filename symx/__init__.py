"""Symbolic execution of the Python sources in /repo, decided by z3."""
