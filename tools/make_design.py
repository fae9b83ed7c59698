#!/opt/venv/bin/python
"""rewrites the generated blocks of DESIGN.md (between <!--X--> and <!--/X-->) from the harnesses,
known_findings.json and seeded/"""
import importlib, json, os, re, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def table():
    out = []
    for l in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(l)
        m = importlib.import_module("harness." + p["id"].lower()).META
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(f"* Bounds: {m['bounds']}.")
        out.append(f"* Outside: {m['outside']}.")
        if m.get("assumptions"):
            out.append(f"* Assumes: {'; '.join(m['assumptions'])}.")
        out.append("")
    return "\n".join(out)


def fixes():
    return "\n".join(f"* {e['property']} `{e['commit'][:7]}`: {e['what']}"
                     for e in json.load(open(os.path.join(HERE, "known_findings.json"))))


def seeded():
    out = ["| planted bug | property | breaks | needs |", "|---|---|---|---|"]
    d = os.path.join(HERE, "seeded")
    for s in sorted(os.listdir(d)):
        m = json.load(open(f"{d}/{s}/meta.json"))
        out.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |".replace("\n", " "))
    return "\n".join(out)


f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
for nm, fn in (("TABLE", table), ("FIXES", fixes), ("SEEDED", seeded)):
    s = s.replace(f"@@{nm}@@", f"<!--{nm}-->\n<!--/{nm}-->")
    s = re.sub(rf"<!--{nm}-->.*?<!--/{nm}-->", lambda _: f"<!--{nm}-->\n{fn()}\n<!--/{nm}-->", s, flags=re.S)
open(f, "w").write(s)
