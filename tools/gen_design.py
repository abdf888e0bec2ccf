"""Writes DESIGN.md from tools/design.md, known_findings.txt and seeded/*/meta.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(ROOT + "/tools/design.md").read()
fx = [l.split(None, 3) for l in open(ROOT + "/known_findings.txt") if l.startswith("fixed:")]
rows = "| property | commit | what failed |\n|---|---|---|\n"
for _, p, c, w in fx:
    rows += f"| {p.split('=')[1]} | `{c}` | {w.strip()} |\n"
t = t.replace("%FIXES%", rows.rstrip()).replace("%NFIX%", str(len(fx)))
missed = set(open(ROOT + "/tools/missed.txt").read().split())
rows = "| planted bug | needs | caught by |\n|---|---|---|\n"
seeds = sorted(os.listdir(ROOT + "/seeded"))
for i in seeds:
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    rows += f"| {i}{' *' if i in missed else ''} | {m['needs']} | {m['property']} |\n"
t = t.replace("%SEEDS%", rows.rstrip()).replace("%NSEED%", str(len(seeds)))
open(ROOT + "/DESIGN.md", "w").write(t)
