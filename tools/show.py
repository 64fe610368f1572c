#!/usr/bin/env python3
"""show.py <replay>...: print saved cases without defaults (development aid)"""
import json
import sys


def short(x):
    if isinstance(x, list) and len(x) >= 30:
        return {i: v for i, v in enumerate(x) if v}
    if isinstance(x, list):
        return [short(v) for v in x]
    if isinstance(x, dict):
        return {k: short(v) for k, v in x.items() if v is not None}
    return x


for p in sys.argv[1:]:
    d = json.load(open(p))
    print(p, short(d["case"]), d["message"], sep="\n")
