"""Rewrite the tables of DESIGN.md from the sub-checks, known_findings.json, seeded/ and tools/hunt.json (run after edits of those)"""
import json, os, pathlib, re, sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo") + "/src")
os.environ.update(JAX_ENABLE_X64="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg")
import importlib
from vf import core


def cell(s):
    return " ".join(str(s).split()).replace("|", "\\|")


def subs():
    out = ["| property | sub-check | cases quick / thorough | a case counts as non-trivial when |", "|---|---|---|---|"]
    for k in range(1, 27):
        prop = f"C{k:02d}"
        importlib.import_module(f"vf.props.{prop.lower()}")
        for name, s in core.REGISTRY[prop].items():
            out.append(f"| {prop} | {cell(name)} | {s.quick} / {s.thorough} | {cell(s.rule)} |")
    return out


def fixes():
    d = json.loads((V / "known_findings.json").read_text())
    out = ["| property | commit | what failed |", "|---|---|---|"]
    for l in d["fixed"]:
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        out.append(f"| {m.group(1)} | {m.group(2)} | {cell(m.group(3))} |")
    for l in d["findings"]:
        out.append(f"| finding | - | {cell(json.dumps(l))} |")
    return out


def seeded():
    hunt = json.loads((V / "tools" / "hunt.json").read_text()) if (V / "tools" / "hunt.json").exists() else {}
    out = ["| planted bug | what it breaks | caught by |", "|---|---|---|"]
    for d in sorted((V / "seeded").iterdir()):
        meta = json.loads((d / "meta.json").read_text())
        h = hunt.get(d.name)
        by = "not run" if h is None else f"{meta['property']}: {', '.join(h['by'])}" if h["caught"] else "MISSED"
        out.append(f"| {d.name} | {cell(meta['what_it_breaks'])} | {by} |")
    return out


text = (V / "DESIGN.md").read_text()
for name, make in (("subs", subs), ("fixes", fixes), ("seeded", seeded)):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    i, j = text.index(a), text.index(b)
    text = text[:i + len(a)] + "\n" + "\n".join(make()) + "\n" + text[j:]
(V / "DESIGN.md").write_text(text)
