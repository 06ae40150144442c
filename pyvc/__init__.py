"""pyvc: a small contract verifier for Python, see DESIGN.md."""
