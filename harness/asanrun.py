"""Runs the extension (built with the address sanitizer) on the cases of a JSON file."""

import importlib.util
import json
import sys

import numpy as np

s = importlib.util.spec_from_file_location("statisticscalc", sys.argv[1])
m = importlib.util.module_from_spec(s)
s.loader.exec_module(m)
for n, k, bs, st, lay in json.load(open(sys.argv[2])):
    print(json.dumps([n, k, bs, st, lay]), flush=True)
    a = np.arange(n * k, dtype=float).reshape(n, k) % 7
    if lay == 1:
        a = np.asfortranarray(a)
    elif lay == 2:
        a = a.astype(np.uint8)
    elif lay == 3:
        a = np.repeat(a, 2, 1)[:, ::2]
    m.getstatistics(a, bs, st)
    m.minstd(a, bs, st)
print("done", flush=True)
