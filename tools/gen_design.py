#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, a section for each property from properties.jsonl and the doc comments of its
harnesses, tools/design_tail.md, and a table of the planted bugs."""
import collections, glob, json, os, re, textwrap
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = collections.OrderedDict()
for f in sorted(glob.glob(root + "/harness/*/*.go")):
    s = open(f).read().split("\n")
    for i, l in enumerate(s):
        m = re.match(r"func (C\d\d)_(\w+)\(\)", l)
        if not m:
            continue
        j, doc, opt = i - 1, [], ""
        while j >= 0 and s[j].startswith("//"):
            if s[j].startswith("//v:"):
                opt = s[j][4:].strip()
            else:
                doc.insert(0, s[j][2:].strip())
            j -= 1
        D.setdefault(m[1], []).append((m[2], " ".join(doc), dict(o.split("=", 1) for o in opt.split()), os.path.basename(os.path.dirname(f))))
wrap = lambda t, a="", b="": "\n".join(textwrap.wrap(t, 118, initial_indent=a, subsequent_indent=b, break_long_words=False, break_on_hyphens=False))
out = [open(root + "/tools/design_head.md").read().rstrip("\n"), ""]
for l in open(root + "/properties.jsonl"):
    if not l.strip():
        continue
    p = json.loads(l)
    out += [f"### {p['id']} {p['title']}", "", wrap(p["statement"]), ""]
    for name, doc, o, where in D.get(p["id"], []):
        tags = ([where] if where == "cli" else []) + (["real"] if o.get("mode") == "real" else []) + (["thorough only"] if o.get("tier") == "thorough" else []) + (["every map order"] if o.get("order") == "1" else [])
        out.append(wrap(f"`{name}`{' [' + ', '.join(tags) + ']' if tags else ''}: {doc}", "* ", "  "))
    out.append("")
out += [open(root + "/tools/design_tail.md").read().rstrip("\n"), ""]
out += ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c = lambda t: str(t).replace("|", "/").replace("\n", " ")
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
