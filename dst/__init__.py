"""Deterministic simulation of QMix with fault injection (see /verif/DESIGN.md)."""
