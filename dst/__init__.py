"""Deterministic simulation of pyGCodeDecode with fault injection."""
