"""Integer lattices: conversion between lattice coordinates and floats."""
import numpy as np

BADINT = -7777777


class Lattice:
    """Lattice coordinate x stands for the float x * unit."""
    def __init__(self, unit):
        self.unit = float(unit)

    def f(self, x):
        return np.array(x, dtype=float) * self.unit

    def fl(self, x):
        return float(x) * self.unit

    def i(self, val, power=1, tol=1e-5):
        """Integer (nested list) for a float (array); BADINT where it is none."""
        arr = np.asarray(val, dtype=float) / self.unit**power
        if not np.all(np.isfinite(arr)):
            arr = np.where(np.isfinite(arr), arr, 0.3)
        rnd = np.round(arr)
        res = np.where((np.abs(arr - rnd) <= tol * np.maximum(1, np.abs(arr) * 1e-3)) & (np.abs(rnd) < 2**30), rnd, BADINT)
        return res.astype(int).tolist()

    def d2(self, dist):
        """Squared distance in lattice units."""
        arr = (np.asarray(dist, dtype=float) / self.unit)**2
        rnd = np.round(arr)
        ok = np.abs(arr - rnd) <= 1e-6 * np.maximum(1, arr)
        return np.where(ok & (rnd < 2**30), rnd, BADINT).astype(int).tolist()


def units():
    """Exact scales, so that exact ties stay exact."""
    return [1., 0.5, 2.**-4, 2.**-7, 2.**-12, 8.]
