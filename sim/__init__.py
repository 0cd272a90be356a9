"""Deterministic simulator for bilby: see DESIGN.md."""
