"""Runtime monitors for qmat (see /verif/DESIGN.md)."""
