"""Stands in for gmpxxyy, which makes GMP's classes known to cppyy."""
