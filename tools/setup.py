#!/usr/bin/env python3
"""Build every harness, so that the checks only compile what has changed since."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild, registry
seen = set()
rc = 0
for pid, p in registry.PROPS.items():
    for st in p.get("stages", []):
        if st["name"] in seen:
            continue
        seen.add(st["name"])
        try:
            b, n = vbuild.build_harness(st["name"], st["components"], st.get("flavor", "asan"),
                                        extra=st.get("extra"), libs=st.get("libs"))
            print("built", st["name"], n, flush=True)
        except vbuild.BuildError as e:
            print("build of", st["name"], "failed:", e, flush=True)
            rc = 1
sys.exit(rc)
