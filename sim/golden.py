"""The list of continued fractions that are known to be accepted (or not) by the convergence filters."""
import json
import os

from . import core

GOLDEN = None


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def golden():
    """{const: [(pa, pb, is it accepted by the convergence filters, [postproc texts that hit])]}"""
    global GOLDEN
    if GOLDEN is None:
        with core.real_open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'golden.json')) as f:
            GOLDEN = {c: [(tup(pa), tup(pb), acc, hits) for pa, pb, acc, hits in v] for c, v in json.load(f).items()}
    return GOLDEN
