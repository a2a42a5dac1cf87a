"""Reference normal forms (reviewed on the pinned tree) and comparison of the current tree against them."""
import gzip, json, os, re, signal, sys, time, multiprocessing as mp
from . import terms as T, summ, workspace, rint
from .program import Program
from .diff import Differ, subnodes

REFDIR = os.path.join(workspace.VERIF, "ref")
_G = {}


def crate_of(path_fn):
    return path_fn.crate.split(".")[0]


def build():
    P = Program(workspace.dump())
    opaque = summ.default_opaque(P)
    S = summ.Summarizer(P, opaque)
    _G["P"], _G["S"] = P, S
    ids = [f.id for f in P.fns.values() if summ.is_item(P, f)]
    ids.sort(key=lambda i: -len(P.fns[i].exprs))
    out = {}
    with mp.get_context("fork").Pool(8, maxtasksperchild=40) as pool:
        for path, crate, x in pool.imap_unordered(_build1, ids, chunksize=1):
            out.setdefault(crate, {})[path] = x
    os.makedirs(REFDIR, exist_ok=True)
    for c, d in out.items():
        with open(os.path.join(REFDIR, c + ".json.gz"), "wb") as raw:
            with gzip.GzipFile(fileobj=raw, mode="wb", mtime=0, filename="") as f:
                f.write(json.dumps(d, sort_keys=True, separators=(",", ":")).encode())
    adts = {}
    for k, v in T.ADT_INFO.items():
        adts[k] = {"kind": v["kind"], "variants": [[x["name"], [[f[0], str(f[1])] for f in x["fields"]]] for x in v["variants"]]}
    ws = ("halo2_proofs", "halo2curves", "halo2_gadgets", "poseidon", "ckb_bf_vm", "ckb_bf_base", "ckb_bf_prover")
    with open(os.path.join(REFDIR, "index.json"), "w") as f:
        json.dump({"opaque": opaque, "adts": {k: adts[k] for k in sorted(adts) if k.split("::")[0] in ws}}, f, indent=0, sort_keys=True)
    for c, d in sorted(out.items()):
        bad = {p: (x["A"]["st"], x["B"]["st"] if x["B"] else "") for p, x in d.items() if not x["A"]["dag"] or x["B"] and not x["B"]["dag"]}
        print(c, len(d), "not summarised:", bad)


def _sum1(fn, level):
    S = _G["S"]
    unr = None
    st, out, I = S.summary(fn, 25, level=level)
    if out is None:
        unr = 4
        st, out, I = S.summary(fn, 40, unroll=4, level=level)
    T.TRANSPARENT.clear()
    return {"st": st, "unroll": unr, "dag": T.dump_dag(out) if out else None}, I


def _build1(i):
    P = _G["P"]
    fn = P.fns[i]
    pub = summ.is_pub(fn)
    a, I = _sum1(fn, "A")
    b, J = _sum1(fn, "B")
    inl = sorted({P.fns[v].path for v in (J.visited if J else ()) if v in P.fns and v != fn.id and summ.is_fn(P, P.fns[v]) and not summ.is_pub(P.fns[v])})
    if a["dag"] is not None and a["dag"] == b["dag"]:
        b = None
    return fn.path, fn.crate.split(".")[0], {"loc": fn.loc, "pub": pub, "const": fn.kind in ("Const", "AssocConst"), "np": len(fn.params), "A": a, "B": b, "inl": inl}


def load(crate):
    with gzip.open(os.path.join(REFDIR, crate + ".json.gz")) as f:
        return json.load(f)


def index():
    with open(os.path.join(REFDIR, "index.json")) as f:
        return json.load(f)


class Result:
    __slots__ = ("path", "loc", "status", "detail", "nodes", "via", "final")

    def __init__(self, path, loc, status, detail="", nodes=0):
        self.path, self.loc, self.status, self.detail, self.nodes = path, loc, status, detail, nodes
        self.final = False
        self.via = "direct"


RETRIES = 4
CRATES = ("ckb_bf_base", "ckb_bf_prover", "ckb_bf_verifier", "ckb_bf_vm", "halo2_gadgets", "halo2_proofs", "halo2curves", "poseidon")


class Comparer:
    """compares functions of the current tree with their reference normal forms"""

    def __init__(self, P, procs=8):
        self.P = P
        self.procs = procs
        idx = index()
        _G["P"] = P
        _G["S"] = summ.Summarizer(P, idx["opaque"])
        _G["refs"] = {c: load(c) for c in CRATES}
        self.ref = {}
        for c, d in _G["refs"].items():
            for p, x in d.items():
                self.ref[p] = (c, x)
        self.memo = {}
        self.t0 = time.time()
        self.renamed = {}
        self.aliases()

    # -------------------------------------------------- renamed functions
    def aliases(self):
        P = self.P
        cur = {f.path for f in P.fns.values() if summ.is_item(P, f)}
        gone = [p for p in self.ref if p not in cur]
        if not gone:
            return
        new = [P.by_path[p][0] for p in cur if p not in self.ref]
        jobs = []
        for p in gone:
            c, x = self.ref[p]
            for f in new:
                if f.crate.split(".")[0] == c and len(f.params) == x["np"] and parent(f.path) == parent(p):
                    jobs.append((c, p, "A", 0, f.path))
        for (c, p, _, _, q), r in zip(jobs, self.pool(jobs)):
            if r.status == "held" and p not in self.renamed and q not in self.renamed.values():
                self.renamed[p] = q
        for p, q in self.renamed.items():
            f = P.by_path[q][0]
            f.path = p
            P.by_path.setdefault(p, []).append(f)

    def pool(self, jobs):
        if not jobs:
            return []
        with mp.get_context("fork").Pool(min(self.procs, len(jobs)), maxtasksperchild=1 if jobs[0][3] else 60) as pool:
            return pool.map(_cmp1, jobs, chunksize=1)

    def level(self, paths, lev):
        """-> {path: Result}; normal forms are compared under several decision orders before a difference is believed"""
        todo = [p for p in paths if (p, lev) not in self.memo]
        todo.sort(key=lambda p: -len(((self.ref[p][1]["A"] or {}).get("dag") or {"nodes": ()})["nodes"]))
        res = dict(zip(todo, self.pool([(self.ref[p][0], p, lev, 0, None) for p in todo])))
        votes = {p: [r.status] for p, r in res.items()}
        for k in range(RETRIES):
            bad = [p for p, r in res.items() if r.status == "violated" or (r.status == "undecided" and r.nodes and not r.final)]
            if not bad or time.time() - self.t0 > (240 if k < 2 else 150):
                break
            for p, r in zip(bad, self.pool([(self.ref[p][0], p, lev, k + 1, None) for p in bad])):
                votes[p].append(r.status)
                if r.status == "held" or (r.status == "violated" and res[p].status == "undecided"):
                    res[p] = r
        for p, r in res.items():
            if r.status == "violated" and 2 * votes[p].count("violated") < len(votes[p]):
                r.status = "undecided"
            self.memo[(p, lev)] = r
        return {p: self.memo[(p, lev)] for p in paths}

    def run(self, paths):
        """paths: reference functions (pub or private) -> [Result]"""
        out = {}
        have = []
        for p in paths:
            if p not in self.ref:
                continue
            if p not in self.P.by_path:
                c, x = self.ref[p]
                if x["pub"] and not p.startswith("<"):
                    out[p] = Result(p, x["loc"], "missing", "public function is gone")
                elif x["pub"]:
                    out[p] = Result(p, x["loc"], "undecided", "implementation item is gone")
                else:
                    out[p] = Result(p, x["loc"], "undecided", "private function is gone; covered through its callers")
                continue
            have.append(p)
        A = self.level(have, "A")
        out.update(A)
        bad = [p for p in have if A[p].status != "held" and not A[p].final]
        if not bad:
            return list(out.values())
        B = self.level(bad, "B")
        callers = {}
        for p in bad:
            if B[p].status == "held":
                out[p] = B[p]
            elif not self.ref[p][1]["pub"]:
                callers[p] = [q for q, (c, x) in self.ref.items() if x["pub"] and p in x["inl"] and q in self.P.by_path]
        need = sorted({q for l in callers.values() for q in l})
        R = self.level(need, "B") if need and time.time() - self.t0 < 330 else {}
        changed = {p for p in bad if out[p].status != "held"}
        for p in bad:
            if out[p].status == "held":
                continue
            cs = callers.get(p)
            if cs and R and all(R[q].status == "held" for q in cs):
                out[p] = Result(p, A[p].loc, "held", "", A[p].nodes)
                out[p].via = "callers"
                continue
            x = self.ref[p][1]
            if A[p].status == "violated" and B[p].status == "undecided" and x["B"] and any(q not in self.P.by_path or q in changed for q in x["inl"]):
                out[p] = B[p]
            else:
                out[p] = A[p] if A[p].status == "violated" or B[p].status != "violated" else B[p]
        return list(out.values())


def parent(p):
    return p.rsplit("::", 1)[0]


def _cmp1(job):
    import random
    crate, path, lev, order, cand = job
    P, S = _G["P"], _G["S"]
    T._rng[0] = random.Random(order * 7919) if order else None
    try:
        x = _G["refs"][crate][path]
        ref = x["A"] if lev == "A" or not x["B"] else x["B"]
        fn = P.by_path[cand or path][0]
        if ref["dag"] is None:
            return Result(path, fn.loc, "undecided", "no reference normal form (%s)" % ref["st"])
        st, out, I = S.summary(fn, 25 if order else 90, unroll=ref["unroll"], level=lev)
        if out is None:
            return Result(path, fn.loc, "undecided", "not summarised: " + st)
        signal.alarm(25 if order else 60)
        try:
            return judge(path, fn, ref, out)
        except summ.Budget:
            return Result(path, fn.loc, "undecided", "comparison budget exhausted")
        except Exception as e:
            return Result(path, fn.loc, "undecided", "not compared: %s" % type(e).__name__)
        finally:
            signal.alarm(0)
    finally:
        T._rng[0] = None


def settle(x):
    """normalise until nothing changes"""
    for _ in range(4):
        y = T.canon(x)
        if y is x:
            break
        x = y
    return x


def judge(path, fn, ref, out):
    T.TRANSPARENT.clear()
    rr = {k: settle(v) for k, v in T.load_dag(ref["dag"]).items()}
    # the current summary goes through the same serialisation
    cc = {k: settle(v) for k, v in T.load_dag(T.dump_dag(out)).items()}
    if "world" in rr or "world" in cc:
        rr.setdefault("world", T.Sym("$world"))
        cc.setdefault("world", T.Sym("$world"))
    main = [k for k in rr if k not in ("panics", "unwraps")]
    nn = len(ref["dag"]["nodes"])
    d = Differ([rr[k] for k in main], [cc[k] for k in cc if k in main])
    for k in main:
        if k in cc:
            d.run(rr[k], cc[k])
        else:
            d.defs.append(((k,), "parameter gone", rr[k], rr[k]))
    msgs = []
    for p, why, r, c in d.defs[:3]:
        msgs.append("%s: %s; expected %s, found %s" % ("/".join(p[-4:]) or "result", why, T.show(r, 4)[:160], T.show(c, 4)[:160]))
    mr = {k: rr[k] for k in main}
    if msgs and all(k in cc for k in main):
        # second opinion: forms that agree in every interpretation, all their decisions exercised, are not a definite difference
        v = rint.separate(mr, cc, 60, coverage=True)
        if not v.raw and v.agree >= 20 and (v.covered or d.loose):
            d.und.insert(0, (d.defs[0][0], "forms differ (%s) but agree in %d random interpretations" % (d.defs[0][1], v.agree), d.defs[0][2], d.defs[0][3]))
            msgs = []
    novel = unmodelled(cc, main) - unmodelled(rr, main) if d.defs or d.und else ()
    if novel and d.defs:
        # a library operation whose meaning is unknown to the analysis took part: not a definite difference
        d.und.insert(0, (d.defs[0][0], d.defs[0][1] + " (through %s, which is not modelled)" % sorted(novel)[0], d.defs[0][2], d.defs[0][3]))
        msgs = []
    pm = lost_panics(rr, cc)
    if not pm and "panics" in rr and "panics" in cc:
        pm = rint.panics(rr, cc) or moved_bound(rr, cc)
    msgs += pm
    if msgs:
        return Result(path, fn.loc, "violated", " | ".join(msgs), nn)
    if d.und:
        p, why, r, c = d.und[0]
        v = rint.separate(mr, cc) if not d.defs and not novel else None
        if v and v.bad:
            b = v.bad[0]
            return Result(path, fn.loc, "violated", "refuted in %d of %d random interpretations: %s: %s (sequences of length %d); %s" % (len(v.bad), v.valid, b[1], b[2], b[3], "%s: %s" % ("/".join(p[-4:]), why)), nn)
        # a reference with unknown parts stays undecided under every order and at every level
        r = Result(path, fn.loc, "undecided", "%s: %s" % ("/".join(p[-4:]), why), nn)
        r.final = any(x.tops for x in mr.values())
        return r
    return Result(path, fn.loc, "held", "", nn)


LIB = re.compile(r"^(<?core::|<?alloc::|std::(?!fs|process|env|io)|Iterator::|DoubleEndedIterator::|ExactSizeIterator::|Default::default<(core|alloc|std))")


def unmodelled(forms, keys):
    """standard-library operations left uninterpreted in the normal forms"""
    out = set()
    for k in keys:
        if k in forms:
            for x in subnodes(forms[k]):
                if x.op in ("app", "ev") and x.a and x.a[0].__class__ is str and LIB.match(x.a[0]) and not x.a[0].startswith("core::fmt"):
                    out.add(x.a[0])
    return out


def has_loop(x):
    from .diff import LOOPS
    return any(y.op in LOOPS for y in subnodes(x))


def moved_bound(rr, cc):
    """an explicit check `x < bound` whose bound moved by a constant"""
    a = [x for x in rr["panics"].a[0] if x not in cc["panics"].a[0] + cc["unwraps"].a[0]]
    b = [x for x in cc["panics"].a[0] if x not in rr["panics"].a[0] + rr["unwraps"].a[0]]
    if len(a) != 1 or len(b) != 1:
        return []
    x, y = a[0], b[0]

    def strip(x):
        if x.op == "any":
            lam = x.a[1]
            return x.a[0], strip(T.apply_lam(lam, *[T.Sym("%bound" + str(n)) for n in range(lam.a[1])]))
        if x.op == "ite" and x.a[1] is T.FALSE and x.a[2] is T.TRUE:
            return "not", strip(x.a[0])
        return (x.a[0],) if x.op == "lt0" else None
    p, q = strip(x), strip(y)
    while p and q and len(p) == 2 and len(q) == 2 and p[0] == q[0]:
        p, q = p[1], q[1]
    if p and q and len(p) == 1 and len(q) == 1:
        d = T.sub(p[0], q[0])
        if d.op == "int" and d.a[0] != 0 and p[0].op != "int":
            return ["explicit check moved: bound changed by %d in %s" % (d.a[0], T.show(x, 5)[:200])]
    return []


def lost_panics(rr, cc):
    if "panics" not in rr or "panics" not in cc:
        return []
    cur = list(cc["panics"].a[0]) + list(cc["unwraps"].a[0])
    out = []
    for c in rr["panics"].a[0]:
        if c in cur or has_loop(c) or c.tops:
            continue
        if len(cur) > 60 or any(x.tops for x in cur):
            continue
        rest = T.AND(c, T.NOT(T.OR(*[x for x in cur]))) if cur else c
        if rest is T.FALSE:
            continue
        if any(has_loop(x) for x in cur if x not in rr["panics"].a[0] and x not in rr["unwraps"].a[0]):
            continue
        if rint.impossible(rest):
            continue
        out.append("explicit check removed: no longer panics when %s" % T.show(c, 5)[:200])
    return out


if __name__ == "__main__":
    t = time.time()
    if sys.argv[1] == "build":
        build()
    else:
        P = Program(workspace.dump())
        C = Comparer(P)
        ps = [p for p in C.ref if len(sys.argv) < 3 or any(a in p or a in C.ref[p][1]["loc"] for a in sys.argv[2:])]
        rs = C.run(ps)
        from collections import Counter
        print(Counter(r.status for r in rs), Counter(r.via for r in rs), C.renamed)
        for r in rs:
            if r.status != "held":
                print(r.status, r.path[:150], "|", r.detail[:900])
    print("%.1fs" % (time.time() - t))
