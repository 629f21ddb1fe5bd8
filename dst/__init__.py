"""Deterministic simulation of SolidsPy: see ../DESIGN.md."""
