"""Assembles DESIGN.md from tools/design_intro.md, the properties, the checks' facets, the findings and the planted bugs:
PYTHONPATH=/repo/py /opt/venv/bin/python -B tools/design.py"""
import os, sys, json, glob, importlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]


def main():
    from vlib import boot
    boot.setup()
    import props
    out = [open(os.path.join(HERE, "tools", "design_intro.md")).read()]
    out.append("\n## Properties and how each is decided\n")
    for p in props.P:
        m = importlib.import_module("checks." + p["id"].lower())
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("*Quantifier*: %s.\n*Why the tests cannot settle it*: %s.\n*Decided by*: %s.\n*Bounds/limits*: %s.\n" % (
            p["quantifier"]["text"], p["why_tests_cant"], p["_t"], p["_n"]))
        for f in m.FACETS:
            out.append("- facet `%s` (%d cases quick, %d thorough, %d shards): %s" % (f.name, f.quick, f.thorough, f.shards, f.rule))
        a = getattr(m, "ASSUMPTIONS", [])
        if a:
            out.append("- assumptions: " + "; ".join(a))
        out.append("")
    na = props.NOT_APPLICABLE if hasattr(props, "NOT_APPLICABLE") else []
    if na:
        out.append("## Not applicable\n")
        for x in na:
            out.append("- %s: %s" % (x["property"], x["reason"]))
        out.append("")
    out.append("## Genuine defects found\n")
    out.append("Every one was shown against the real code by the check named; repaired ones are `fix:` commits in /repo "
               "(reverting the commit makes the check report the violation again).\n")
    for f in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]:
        out.append("- %s (%s) %s" % (f["id"], f["status"], f["line"]))
    out.append("\n## Planted bugs (seeded/) and what catches them\n")
    out.append("| id | property (check that reports it) | needs | breaks | remark |\n|---|---|---|---|---|")
    rem = json.load(open(os.path.join(HERE, "tools", "seeded_remarks.json")))
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(d))
        j = json.load(open(d))
        out.append("| %s | %s | %s | %s | %s |" % (i, j["property"], j["needs"], j["what_it_breaks"], rem.get(i, "caught")))
    out.append("\n### Planted in the programs of bin/ (planted_programs/)\n")
    out.append("These are scripts without suffix, which planted bugs may not change; they are kept apart.\n\n| id | property (check that reports it) | needs | breaks | remark |\n|---|---|---|---|---|")
    for d in sorted(glob.glob(os.path.join(HERE, "planted_programs", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(d))
        j = json.load(open(d))
        out.append("| %s | %s | %s | %s | %s |" % (i, j["property"], j["needs"], j["what_it_breaks"], rem.get(i, "caught")))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
