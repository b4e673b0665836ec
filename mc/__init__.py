"""Bounded exhaustive exploration of primpy (see DESIGN.md)."""
