"""Intrinsic obligations: decided from the type-checked program alone, without a reference normal form."""
RULES = {}

RES = "core::result::Result"
SWALLOW = {"ok", "err", "is_ok", "is_err", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "or", "or_else", "map_or", "map_or_else", "is_ok_and", "is_err_and", "and"}


def rule(f):
    RULES[f.__name__] = f
    return f


def run(name, P, C, sel):
    return RULES[name](P, C, sel)


def _peel(f, i):
    while True:
        e = f.exprs[i]
        if e["k"] in ("scope", "use", "never"):
            i = e["e"] if "e" in e else e["v"]
        else:
            return e


def _circuit_result(P, f, t):
    """Result<_, halo2 plonk Error>: the outcome of a circuit operation"""
    t = P.ty(f.crate, t)
    while t[0] == "ref":
        t = t[2]
    if t[0] != "adt" or t[1] != RES or len(t[2]) < 2:
        return False
    e = t[2][1]
    return e[0] == "adt" and e[1].startswith("halo2_proofs::plonk::error::")


def _chain(P, f, e):
    """the circuit result at the root of a chain of error-discarding adaptors"""
    while e["k"] == "call":
        if _circuit_result(P, f, e["t"]):
            return True
        c = e.get("callee")
        if not c or not e["args"] or not c["id"].startswith(("core::result::", "core::option::")) or c.get("name") not in SWALLOW | {"is_some", "is_none", "map"}:
            return c is not None and c["id"].endswith("mem::drop") and _circuit_result(P, f, _peel(f, e["args"][0])["t"])
        e = _peel(f, e["args"][0])
        while e["k"] == "borrow":
            e = _peel(f, e["v"])
    return False


def _empty(f, i):
    e = _peel(f, i)
    if e["k"] == "block":
        return not e["st"] and (e.get("e") is None or _empty(f, e["e"]))
    return e["k"] == "tuple" and not e.get("vs")


def dropped_results(P, f):
    """[(expression, how)]: circuit results whose error can reach neither the caller nor a decision nor a panic"""
    out = []
    for b in f.exprs:
        if b["k"] == "block":
            for s in b["st"]:
                if s.get("p") is not None:
                    if s["p"]["k"] != "wild" or s.get("i") is None:
                        continue
                    e, how = _peel(f, s["i"]), "bound to _"
                elif s.get("e") is not None:
                    e, how = _peel(f, s["e"]), "dropped"
                else:
                    continue
                if _chain(P, f, e):
                    out.append((e, how))
        elif b["k"] == "call" and b.get("callee") and b["args"] and b["callee"].get("name") in ("unwrap_or", "unwrap_or_default") and b["callee"]["id"].startswith("core::result::"):
            if _circuit_result(P, f, _peel(f, b["args"][0])["t"]):
                out.append((b, "replaced by a default"))
        elif b["k"] == "if":
            c = _peel(f, b["c"])
            if c["k"] == "let" and b.get("b") is None and c["p"]["k"] == "variant" and c["p"]["adt"] == RES and c["p"]["vi"] == 0 and _circuit_result(P, f, _peel(f, c["v"])["t"]):
                out.append((b, "ignored unless successful"))
        elif b["k"] == "match" and b.get("src") != "TryDesugar" and _circuit_result(P, f, _peel(f, b["v"])["t"]):
            for a in b["arms"]:
                if (a["p"]["k"] == "wild" or a["p"]["k"] == "variant" and a["p"]["vi"] == 1) and _empty(f, a["b"]):
                    out.append((b, "ignored in a match arm"))
    return out


@rule
def circuit_errors_propagate(P, C, sel):
    """every failure of an assignment, copy or constraint call reaches the caller, a decision or a panic"""
    files = {C.ref[p][1]["loc"].rsplit(":", 1)[0] for p in sel}
    out = []
    for f in P.fns.values():
        if f.loc.rsplit(":", 1)[0] not in files:
            continue
        n = sum(1 for e in f.exprs if e["k"] == "call" and _circuit_result(P, f, e["t"]))
        if not n:
            continue
        bad = dropped_results(P, f)
        for e, how in bad:
            out.append({"construct": f.path, "location": "%s:%s" % (f.loc.rsplit(":", 1)[0], e["l"]), "rule": "circuit-errors-propagate", "status": "violated",
                        "detail": "the outcome of a circuit operation is %s: its failure goes unnoticed" % how})
        if not bad:
            out.append({"construct": f.path, "location": f.loc, "rule": "circuit-errors-propagate", "status": "held", "detail": "%d fallible circuit calls" % n})
    return out
