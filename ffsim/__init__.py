"""Deterministic simulation of finalfusion-python (see /verif/DESIGN.md)."""
