"""Deterministic simulation of CasSphSph: see DESIGN.md."""
