"""Deterministic simulation of ocbpy with fault injection."""
