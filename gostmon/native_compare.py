"""Runs under callgrind (see props/c22.py): each comparison happens inside one qsort_r() of the C library, so that
callgrind writes the number of machine instructions of exactly that comparison.

argv: repository, function (compare or compare_to_zero), length, delta, positions..."""

import ctypes
import gc
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from gostcrypto import utils  # noqa: E402

fn = getattr(utils, sys.argv[2])
n, delta = int(sys.argv[3]), int(sys.argv[4])
# warm up the adaptive interpreter
one, two = bytearray(40), bytearray(40)
two[7] = delta
for _ in range(60):
    fn(one, two) if sys.argv[2] == 'compare' else fn(two)

callback_type = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p)
args = []


def body(_a, _b):
    results.append(fn(*args))
    return 0


callback = callback_type(body)
results = []
items = ctypes.create_string_buffer(16)
lib = ctypes.CDLL(None)
lib.qsort.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_size_t, callback_type]
lib.qsort.restype = None
gc.disable()
for pos in [int(x) for x in sys.argv[5:]]:
    second = bytearray(n)
    second[pos] = delta
    args[:] = [bytearray(n), second] if sys.argv[2] == 'compare' else [second]
    lib.qsort(items, 2, 1, callback)
sys.stdout.write('RESULTS %d %s\n' % (len(results), results))
sys.stdout.flush()
os._exit(0)      # the C library sorts again on the way out
