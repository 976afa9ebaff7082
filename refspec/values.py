"""Reference formulas, read (never run) by the abstract interpreter."""
import numpy as np


def l2(v):
    return np.sqrt(np.sum(np.abs(v) ** 2))


def l2pair(a, b):
    return np.sqrt(np.sum(np.abs(a) ** 2) + np.sum(np.abs(b) ** 2))


def linf(v):
    return np.max(np.abs(v))


def linfpair(a, b):
    return np.sqrt(np.max(np.abs(a)) ** 2 + np.max(np.abs(b)) ** 2)


def power(v):
    return np.sum(np.abs(v) ** 2)


def relative(a, b):
    return np.sum(np.abs(a - b)) / np.sum(np.abs(a))
