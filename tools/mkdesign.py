#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts (tools/design_*.md) and tables generated from harnesses, properties and planted changes."""
import os, sys, json, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [H, H + "/tools"]
from props import PROPS
import run
seeds = {}
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = [open(H + "/tools/design_head.md").read()]
out.append("## 5. Properties, and how each is decided\n")
for p in PROPS:
    out.append("### %s %s\n\nAnchored in %s.\n" % (p["id"], p["title"], ", ".join(p["anchors"]["files"])))
    if not os.path.exists("%s/harness/%s.cpp" % (H, p["id"])):
        out.append("Not applicable: see MANIFEST.json and section 6.\n"); continue
    s = run.parse_spec(p["id"])
    out.append("Entries (quick; thorough parameters%s): %s.\n" % ("; `real` = exact real arithmetic" if any(e["real"] for e in s["entries"]) else "",
        ", ".join("`%s`%s (%s; %s)" % (e["entry"], " real" if e["real"] else "", e.get("quick") or "-", e.get("thorough") or "-") for e in s["entries"])))
    out.append("Bounds: %s.\n" % " ".join(s["bounds"]))
    if s["assume"]: out.append("Assumes: %s.\n" % " ".join(s["assume"]))
    for n, m in seeds.get(p["id"], []): out.append("Planted change `%s`: %s" % (n, m["what_it_breaks"]))
    if seeds.get(p["id"]): out.append("")
out.append(open(H + "/tools/design_tail.md").read())
open(H + "/DESIGN.md", "w").write("\n".join(out))
