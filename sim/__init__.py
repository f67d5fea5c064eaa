"""Deterministic simulation of ahkab with fault injection."""
