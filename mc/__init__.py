"""Bounded exhaustive exploration of py-matrix-algorithms against reference models."""
