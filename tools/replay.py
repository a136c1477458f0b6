#!/usr/bin/env python3
"""Rebuild /repo natively and rerun a replay file printed by a check: replay.py FILE"""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxbuild as B
t = open(sys.argv[1]).read()
g = lambda k: re.search(rf"# {k} (.*)", t).group(1)
exe = B.native(g("src"), json.loads(g("defs")), g("verify") == "1")
st, so, se = B.replay(exe, os.path.abspath(sys.argv[1]))
print(so + se + f"status {st}")
sys.exit(0 if st == 0 else 1)
