"""Deterministic simulation of Rocketry with fault injection (see DESIGN.md)."""
