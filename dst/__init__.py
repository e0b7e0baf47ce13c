"""Deterministic simulation with fault injection for curvlinops."""
