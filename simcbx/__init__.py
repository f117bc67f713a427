"""Deterministic simulation with fault injection for CBXpy."""
