"""python3 -m sa.check <PROPERTY> [--tier quick|thorough]: decides one property on the current tree.

exit 0: every obligation held; exit 1 + 'VIOLATION property=<id> replay=<report>': a construct violates it;
exit 2: the tree could not be analysed (does not type-check, driver failure)."""
import argparse, json, os, re, sys, time
from . import props, refs, summ, workspace
from .program import Program

EVID = os.path.join(workspace.VERIF, "evidence")
KNOWN = os.path.join(workspace.VERIF, "known-findings.txt")


def selected(pr, ref):
    out = []
    pos = [s for s in pr["sel"] if not s.startswith("!")]
    neg = [s[1:] for s in pr["sel"] if s.startswith("!")]

    def hit(s, p, x):
        if s == "const":
            return x["const"]
        return re.search(s[1:], p) is not None if s.startswith("~") else x["loc"].startswith(s)
    for p, (c, x) in ref.items():
        if p.endswith("core::fmt::Debug>::fmt") and not any(s.startswith("~") and "Debug" in s for s in pos):
            continue
        if any(hit(s, p, x) for s in pos) and not any(hit(s, p, x) for s in neg):
            out.append(p)
    return out


def closure(P, C, sel):
    """reference items reachable in the resolved call graph from the selected ones"""
    seen = set(sel)
    todo = [p for p in sel if p in P.by_path]
    g = P.callees_by_path()
    while todo:
        p = todo.pop()
        for q in g.get(p, ()):
            if q not in seen:
                seen.add(q)
                todo.append(q)
    return [p for p in C.ref if p in seen and p not in set(sel)]


def known(pid):
    """lines 'finding: property=<id> key=<construct key> <what fails>' of the committed file; 'fixed:' lines suppress nothing"""
    out = []
    try:
        with open(KNOWN) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == pid:
                    out.append({"key": m.group(2), "what": m.group(3)})
    except OSError:
        pass
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    t0 = time.time()
    pr = next((p for p in props.PROPS if p["id"] == a.prop), None)
    if pr is None:
        print("no such property", a.prop)
        return 2
    try:
        P = Program(workspace.dump())
    except workspace.BuildError as e:
        print("the tree does not type-check; nothing was decided\n" + str(e)[-3000:])
        return 2
    C = refs.Comparer(P)
    sel = selected(pr, C.ref)
    res = C.run(sel)
    extra = []
    if a.tier == "thorough":
        cl = closure(P, C, sel)
        extra = C.run(cl)
        C.level([p for p in sel if p in P.by_path], "B")
    from . import rules
    rr = []
    for name in pr["rules"]:
        rr += rules.run(name, P, C, [p for p in sel if p in C.ref])
    viol = [{"construct": r.path, "location": r.loc, "rule": "reference-normal-form", "detail": r.detail} for r in res + extra if r.status == "violated"]
    gone = [r for r in res if r.status == "missing"]
    anch = set(selected(dict(pr, sel=pr["anchors"]), C.ref))
    live = sum(1 for r in res if r.path in anch and r.status != "missing" and r.path in P.by_path)
    if live < max(pr["floor"], (len(anch) + 1) // 2):
        viol.append({"construct": "anchors", "location": ", ".join(pr["sel"]), "rule": "anchor-floor", "detail": "only %d of %d anchored items still exist" % (live, len(anch))})
    viol += [{"construct": r["construct"], "location": r.get("location", ""), "rule": r["rule"], "detail": r["detail"], "key": r.get("key")} for r in rr if r["status"] == "violated"]
    kn = known(a.prop)
    kk = {k["key"]: k for k in kn}
    hits = [v for v in viol if v.get("key") in kk]
    viol = [v for v in viol if v.get("key") not in kk]
    for v in hits:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, kk[v["key"]]["what"]))
    und = [r for r in res if r.status in ("undecided", "missing")]
    os.makedirs(EVID, exist_ok=True)
    held = sum(1 for r in res if r.status == "held")
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "static analysis of the type-checked program (THIR of every workspace crate of the current tree): each governed function is reduced to a closed value-graph normal form over its parameters and compared, modulo the algebraic laws of its types, with the reviewed normal form of its specified behaviour; intrinsic rules are decided from the extracted gates, constants and event schedules alone",
            "functions_analysed": len(res), "functions_held": held, "functions_undecided": len(und), "closure_functions": len(extra),
            "closure_undecided": sum(1 for r in extra if r.status != "held"),
            "normal_form_nodes": sum(r.nodes for r in res), "call_graph_functions_loaded": len(P.fns),
            "intrinsic_obligations": len(rr), "intrinsic_held": sum(1 for r in rr if r["status"] == "held"),
            "intrinsic_undecided": sum(1 for r in rr if r["status"] == "undecided"),
            "via_callers": sum(1 for r in res if r.via == "callers"),
            "undecided": [{"construct": r.path, "why": r.detail[:200]} for r in und[:40]],
            "rules": sorted({r["rule"] for r in rr}) + ["reference-normal-form", "anchor-floor"],
            "violating_constructs": viol[:20], "known_findings": [v["construct"] for v in hits],
            "sample": [r.path for r in res[:12]],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ["external crates (core, alloc, ff, group, subtle, blake2b, rayon-free standard library) behave as modelled in sa/models.py and sa/iters.py", "the reference normal forms in ref/ describe the specified behaviour (reviewed against the pinned tree)"],
        "violations": len(viol),
    }
    with open(os.path.join(EVID, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d functions (%d held, %d undecided), %d intrinsic obligations (%d held), %.1fs" % (a.prop, len(res), held, len(und), len(rr), ev["coverage"]["intrinsic_held"], ev["wall_s"]))
    if viol:
        rp = os.path.join(EVID, a.prop + ".violation.txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write("%s\n  at %s\n  rule %s\n  %s\n\n" % (v["construct"], v["location"], v["rule"], v["detail"]))
        for v in viol[:5]:
            print("  %s (%s) [%s]: %s" % (v["construct"], v["location"], v["rule"], v["detail"][:400]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
