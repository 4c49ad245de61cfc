"""Deterministic simulation of galra/PiContFracs with fault injection. See /verif/DESIGN.md."""
