"""sx: a small symbolic executor for pure Python code, backed by z3."""
