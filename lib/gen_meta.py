#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and specs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import props, specs
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines, checks, na = [], [], []
S = "crates/seam/src/"
for p in props.PROPS:
    id = p["id"]
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps(dict(
        id=id, title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
        anchors=dict(files=[S + f for f in p["files"]],
                     mechanism=[dict(name=n, where=S + w) for n, w in p["mech"]],
                     observe_at=p.get("observe", []), hook_needed=None))))
    if id in specs.SPECS:
        checks.append(dict(property=id, quick_cmd="./check %s quick" % id, thorough_cmd="./check %s thorough" % id,
            evidence_file="evidence/%s.json" % id, technique="symbolic execution of the compiled LLVM IR with z3",
            level="model_checking", level_note=specs.SPECS[id]["bounds"] + " Outside: " + specs.SPECS[id]["outside"]
            + " Trusts rustc and LLVM, the engine's models of libc and hashing, and z3; sampled paths are replayed on a native build on every run."))
    else:
        na.append(dict(property=id, reason=p["na"]))
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump(dict(version=1, setup_cmd="./check --build", checks=checks, not_applicable=na,
    notes="No hooks in /repo: harnesses use the public API of the seam crate, and bin.rs is included as source for the command line."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

# Tables of DESIGN.md.
import glob, re
MISSED = dict(
    B08="arguments of built-in macros that expand to nothing", B09="pieces: quoted text over several lines",
    B13="pieces: symbols with `%` inside", B18="declarations of any name", B23="filters that give several nodes",
    B25="nested items before others", B30="option words in any mix of cases", B31="four arguments",
    B36="comments and text with wide characters", B38="attributes on every tag",
    B42="defaults that use variables", B46="numbers at the ends of their ranges for every macro", B48="arguments that define the macro they are given to",
    B50="dots in file names", B51="any contents of files", B56="every kind of argument for the macros without options",
    B59="numbers and raw text in @-rules", B64="numbers written in different ways",
    B71="items far back in a list", B75="lists of no or one item", B84="tags outside of ASCII", B87="other whitespace before what is stripped",
    B89="text of which entities are made", B92="floats of many digits", B95="extensions in upper case", B103="macros with parameters used without a call")
def cell(s): return s.replace("|", "\\|").replace("\n", " ")
def put(text, name, body):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + body + m.group(2), text, flags=re.S)
d = open(os.path.join(ROOT, "DESIGN.md")).read()
b = ""
for p in props.PROPS:
    if p["id"] in specs.SPECS:
        s = specs.SPECS[p["id"]]
        b += "* **%s** %s *Outside:* %s\n" % (p["id"], s["bounds"], s["outside"])
d = put(d, "bounds", b)
b = "| seed | property | what it breaks | first | added |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    id = f.split("/")[-2]
    m = json.load(open(f))
    b += "| %s | %s | %s | %s | %s |\n" % (id, m["property"], cell(m["what_it_breaks"]), "missed" if id in MISSED else "caught", cell(MISSED.get(id, "")))
d = put(d, "seeds", b)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)
