#!/usr/bin/env python3
"""Assembles DESIGN.md: tools/design_intro.md + one section per property + tables."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl") if l.strip()]
src = {}
for f in glob.glob(f"{root}/harness/src/props/*.rs"):
    t = open(f).read()
    for m in re.finditer(r'fn (c\d\d)\(\) -> Prop \{\s*Prop \{\s*id: "[^"]*",\s*rule: "((?:[^"\\]|\\.)*)",\s*assumptions: &\[(.*?)\],\s*subs: vec!\[(.*?)\],\s*\}', t, re.S):
        subs = re.findall(r'sub\("([\w-]+)",\s*(?:Kind|Run)::(Every|Random)\(([^()]*(?:\([^()]*\))?[^()]*)\)', m[4])
        src[m[1].upper()] = dict(file=os.path.basename(f), rule=m[2], assume=re.findall(r'"((?:[^"\\]|\\.)*)"', m[3]), subs=subs)
if __name__ == "__main__":
    oracle = {}
    for m in re.finditer(r'^## (C\d\d)\n(.*?)(?=^## C\d\d|\Z)', open(f"{root}/tools/design_oracles.md").read(), re.S | re.M):
        oracle[m[1]] = m[2].strip()
    out = [open(f"{root}/tools/design_intro.md").read().rstrip(), "", "## The properties, one by one", ""]
    for p in props:
        i = p["id"]; s = src[i]
        out.append(f"### {i} {p['title']}\n")
        out.append(oracle[i] + "\n")
        out.append("- Generated: " + s["rule"])
        out.append("- Sub-checks (`harness/src/props/%s`), cases of one quick round: %s" % (s["file"], ", ".join(
            f"{n} {'all ' if k=='Every' else ''}{c.replace('_',' ')}" for n, k, c in s["subs"])))
        if s["assume"]: out.append("- Assumed / left out: " + "; ".join(s["assume"]))
        out.append("- Why the tests cannot settle it: " + p["why_tests_cant"])
        out.append("")
    out += ["## Planted bugs and the check that catches each", "",
            "Every bug below builds, passes the 72 stable tests, and is caught by the quick check of the named property at seed 1 "
            "(`tools/seeded.sh` applies each one to /repo, runs that check, and undoes it).", "",
            "| bug | caught by | what it breaks | what it needs |", "|---|---|---|---|"]
    for d in sorted(glob.glob(f"{root}/seeded/*/meta.json"), key=lambda d: int(re.search(r'/s(\d+)', d)[1])):
        m = json.load(open(d))
        cell = lambda t: re.sub(r"\s+", " ", str(t)).replace("|", "\\|")
        out.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} |")
    out.append("")
    open(f"{root}/DESIGN.md", "w").write("\n".join(out))
    print(len(out), "lines")
