"""Solver accounting."""
import time
Z3_CALLS = 0
Z3_TIME = 0.0


def check(s, *a):
    global Z3_CALLS, Z3_TIME
    t = time.time()
    r = s.check(*a)
    Z3_CALLS += 1
    Z3_TIME += time.time() - t
    return r
