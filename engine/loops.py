# decisions that take a run-time length apart; the name of the module is historical
from core import *

MAX_SPLIT = 128


def at_header(e, st, fr, b, L, back):
    if back and fr.loops[b] > 100000:
        raise EngineError('loop bound')


def split(e, st, n, what):
    """the path-specific concrete value of n (the path is forked for every feasible value)"""
    if type(n) is int:
        return n
    for k in range(MAX_SPLIT):
        if e.fork(st, simp(n == k)):
            return k
    raise EngineError(what + ' with more than %d possible sizes' % MAX_SPLIT)
