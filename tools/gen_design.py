#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md (the text) and, for the per-property sections, from
properties.jsonl and the headers and Info rules of the harnesses (so that they cannot drift)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(R + "/tools/design.md").read()
more = {}
for part in re.split(r"^### (?=C\d\d)", text.split("<!-- PER PROPERTY -->")[1], flags=re.M)[1:]:
    more[part[:3]] = part[3:].strip()
def cstr(s):
    return "".join(json.loads('"' + x + '"') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', s))
def info(src):
    m = re.search(r"Info i = \{(.*?)\{", src, re.S)
    body = m.group(1)
    strs = re.findall(r'"(?:[^"\\]|\\.)*"|,', body)
    level, rule, seen = strs[2].strip('"'), "", 0
    for x in strs[4:]:
        if x != ",": rule += json.loads(x)
    a = src[m.end():]; depth = 1; i = 0; instr = False
    while depth:
        ch = a[i]
        if ch == '"' and a[i-1] != "\\": instr = not instr
        if not instr: depth += {"{": 1, "}": -1}.get(ch, 0)
        i += 1
    ass = [json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', a[:i])]
    t = a[i:].split("mc::main")[1]
    models = re.findall(r'\{\s*"([a-z0-9A-Z_-]+)"\s*,\s*\d+\s*,\s*([^}]*?)(?:\}|$)', t)
    thorough = [n for n, rest in models if re.search(r",\s*true\b", rest)]
    return level, rule, ass, [n for n, _ in models], thorough
out = []
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); src = open("%s/harness/%s.cc" % (R, p["id"])).read()
    tech = re.search(r"^// technique: (.*)$", src, re.M).group(1)
    level, rule, ass, models, thorough = info(src)
    if p["id"] not in more: raise SystemExit("design.md: nothing on " + p["id"])
    out.append("### %s %s\n\n*Specified:* %s\n\n*Decided by:* %s (level `%s`).\n\n*Enumerated:* %s. Models: %s.\n\n*Assumptions:* %s.\n\n%s\n" % (
        p["id"], p["title"], p["statement"], tech, level, rule.rstrip("."),
        ", ".join(m + (" (thorough only)" if m in thorough else "") for m in models), "; ".join(ass) or "none", more[p["id"]]))
head, tail = text.split("<!-- PER PROPERTY -->")[0], text.split("<!-- END -->")[1]
rows = ["| seed | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/" + d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
tail = tail.replace("@@SEEDS@@", "\n".join(rows))
open(R + "/DESIGN.md", "w").write(head + "\n".join(out) + tail)
