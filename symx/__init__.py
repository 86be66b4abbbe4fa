"""Small symbolic-execution engine: runs the real Python code of /repo on z3 terms."""
