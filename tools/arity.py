#!/usr/bin/env python3
"""arity.py: record the number of parameters of every function of the analysed crate (sa/arity.json)"""
import json
import os
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/sa")
import facts as F
from engine import head
out = {}
for b in F.facts("all")["bodies"]:
    if b["kind"] == "fn" and b.get("name"):
        ty = head(b["impl_self"]).split("::")[-1] + "::" if b.get("impl_self") else ""
        out.setdefault(ty + b["name"], set()).add(b["argc"])
json.dump({k: v.pop() for k, v in sorted(out.items()) if len(v) == 1}, open(R + "/sa/arity.json", "w"), indent=0)
