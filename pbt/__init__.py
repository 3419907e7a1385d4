"""Property-based testing machinery for tbplas (see DESIGN.md)."""
