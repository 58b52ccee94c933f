#!/usr/bin/env python3
"""Replays a reported violation on a native build of /repo's current tree."""
import json, sys
import driver
d = json.load(open(sys.argv[1]))
driver.build_all()
if d["kind"] == "memory":
    driver.build_asan()
for i in range(20):
    ok, how = driver.reproduces(dict(kind=d["kind"], id=d["id"], input=d["input"]), dict(entry=d["entry"], params=d["params"]))
    if ok:
        break
print(how)
sys.exit(1 if ok else 0)
