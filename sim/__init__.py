"""Deterministic simulation harness for torch-mlir (see /verif/DESIGN.md)."""
