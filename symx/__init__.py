"""symx: solver-based symbolic execution of the real rdtools source on real pandas/numpy."""
