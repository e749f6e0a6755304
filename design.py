"""Rewrites the section "## Properties" of DESIGN.md from the registry, the rules and the planted bugs."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))


def section(P, NA):
    out = ["## Properties", "",
           "Each check is one module of `ticsa/props/`, run by `check.py`; the text below is the rule it prints into its evidence. All of "
           "them decide from the MIR of the current tree; none has a bound other than the ones named. *Catches* lists the planted changes "
           "of `seeded/` that the check reports (all planted changes are listed).", ""]
    seeds = {}
    d = os.path.join(here, "seeded")
    for s in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = json.load(open(os.path.join(d, s, "meta.json")))
        seeds.setdefault(m["property"], []).append(s)
    for p in sorted(P, key=lambda p: p["id"]):
        if not p["technique"]:
            continue
        m = importlib.import_module("ticsa.props." + p["id"].lower())
        out += ["### %s %s" % (p["id"], p["title"]), ""]
        out += ["*Rule.* %s." % m.RULE.rstrip("."), ""]
        out += ["*Method.* %s. Anchors: %s." % (p["technique"].rstrip("."), ", ".join("`%s`" % n for n, _ in p["mech"])), ""]
        out += ["*Why not tests.* %s." % p["why"].rstrip("."), ""]
        a = list(getattr(m, "ASSUMPTIONS", []))
        note = p["note"].strip()
        out += ["*Limits.* " + " ".join([note] + ["Assumes: " + "; ".join(a) + "."] * bool(a)), ""]
        if seeds.get(p["id"]):
            out += ["*Catches.* " + ", ".join("`%s`" % s for s in seeds[p["id"]]) + ".", ""]
    if NA:
        out += ["## Not applicable", ""]
        for n in sorted(NA, key=lambda n: n["property"]):
            p = [p for p in P if p["id"] == n["property"]][0]
            out += ["- **%s %s**: %s" % (p["id"], p["title"], n["reason"])]
        out += [""]
    return "\n".join(out)


def write(P, NA):
    f = os.path.join(here, "DESIGN.md")
    s = open(f).read()
    a = s.index("## Properties")
    b = s.find("## Findings", a)
    open(f, "w").write(s[:a] + section(P, NA) + ("\n" + s[b:] if b >= 0 else ""))
