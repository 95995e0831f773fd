"""Bounded exhaustive exploration of the real ProjectQ code (see DESIGN.md)."""
