"""Deterministic simulator with fault injection for ModSSC (see /verif/DESIGN.md)."""
