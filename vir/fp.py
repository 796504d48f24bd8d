"""Floating point is uninterpreted: a value converted back to an integer is an arbitrary integer."""
from .vals import *
from .mem import fresh


class FP: pass


FPV = FP()


def handler(ex, st, ins, const):
    if ins[0] == 'cast':
        _, d, op, ft, v, tt = ins
        if tt[0] == 'f': return FPV
        return fresh('float_result', tt[1])
    if ins[0] == 'fcmp': return fresh('float_compare', 0)
    return FPV
