"""symx: a dynamic symbolic execution engine for Python code, deciding with z3."""
