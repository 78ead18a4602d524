"""Property-based verification of nannos (see ../DESIGN.md)."""
