"""Structured abstract interpreter over THIR.

Flow-sensitive value numbering: branches are joined with gated (ite) values,
loops are summarised by their recurrence (closed form, map, sum, fold), calls
into analysed crates are inlined, everything else is an uninterpreted function.
No path enumeration: each construct is evaluated once per join context."""
import re
from . import terms as T
from .terms import N, _mk, Int, ite, UNIT, TRUE, FALSE, Top, App, Fresh, Lam, Tr, Ev
from .program import key_of, tyname

UNROLL = 40
MAXDEPTH = 60


class Stuck(Exception):
    pass


QUIET = ("log::", "std::io::stdio::", "core::fmt", "core::panicking", "core::hint", "std::thread", "rayon", "core::ptr", "core::mem", "Drop::", "Debug::", "Display::", "ckb_std::syscalls::debug", "tracing", "env_logger", "std::time")


class State:
    __slots__ = ("cells", "path", "dead")

    def __init__(self, cells=None, path=()):
        self.cells = cells if cells is not None else {}
        self.path = path
        self.dead = False

    def copy(self):
        s = State(dict(self.cells), self.path)
        s.dead = self.dead
        return s

    def assign(self, o):
        self.cells = o.cells
        self.path = o.path
        self.dead = o.dead


class Act:
    """one activation (function or closure body)"""
    __slots__ = ("fn", "vars", "tymap", "exits", "loops", "parent", "blocks", "base")

    def __init__(self, fn, tymap, parent=None):
        self.fn = fn
        self.vars = {}
        self.tymap = tymap
        self.exits = []
        self.loops = {}
        self.parent = parent
        self.base = 0

    def lookup(self, v):
        a = self
        while a is not None:
            c = a.vars.get(v)
            if c is not None:
                return c
            a = a.parent
        raise Stuck("unbound variable %s in %s" % (v, self.fn.path))


class LoopCtx:
    __slots__ = ("breaks", "conts")

    def __init__(self):
        self.breaks = []
        self.conts = []


class Call:
    __slots__ = ("it", "st", "act", "e", "args", "name", "key", "targs", "trait", "retty", "argtys", "callee")


def Ref(cell, path=()):
    return _mk("ref", (cell, path))


def implied(c):
    """atomic literals implied by boolean c"""
    out = []
    while True:
        if c.op == "ite":
            v, a, b = c.a
            if b is FALSE:
                out.append((v, True))
                c = a
                continue
            if a is FALSE:
                out.append((v, False))
                c = b
                continue
            break
        if c.op == "bool":
            break
        out.append((c, True))
        break
    return out


def restrict_deep(v, lits, depth=4):
    for a, val in lits:
        v = _rd(v, a, val, depth)
    return v


def _rd(v, a, val, depth):
    if v.op == "ite" or v is a:
        return T.restrict(v, a, val)
    if depth and v.op in ("adt", "tuple", "tr"):
        ch = False
        out = []
        for x in v.a:
            if x.__class__ is N and x.op in ("ite", "adt", "tuple", "tr"):
                y = _rd(x, a, val, depth - 1)
                if y is not x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        if ch:
            return T.rebuild(v.op, tuple(out))
    return v


# tree merging of outcomes ------------------------------------------------
def build_tree(entries):
    """entries: list of (relpath, payload) in evaluation order -> decision tree"""
    if not entries:
        return None
    p0, x0 = entries[0]
    if not p0 or len(entries) == 1:
        return ("leaf", x0)
    c = p0[0]
    pos, neg = (c, True), None
    nc = T.NOT(c)
    A, B = [], []
    for p, x in entries:
        if p and p[0] is c:
            A.append((p[1:], x))
        elif p and p[0] is nc:
            B.append((p[1:], x))
        else:
            A.append((p, x))
            B.append((p, x))
    ta, tb = build_tree(A), build_tree(B)
    if tb is None or not B:
        return ta
    if ta == tb:
        return ta
    return ("node", c, ta, tb)


def fold_tree(t, get):
    if t[0] == "leaf":
        return get(t[1])
    return ite(t[1], fold_tree(t[2], get), fold_tree(t[3], get))


def leaves(t, acc):
    if t[0] == "leaf":
        acc.append(t[1])
    else:
        leaves(t[2], acc)
        leaves(t[3], acc)
    return acc


# conversions the workspace defines itself are followed, not assumed to be the identity
VIEWS = {"core::ops::deref::Deref", "core::ops::deref::DerefMut"}


class Interp:
    def __init__(self, prog, models=None, opaque=(), open_fns=(), opts=None):
        self.P = prog
        self.models = models or {}
        self.opaque = set(opaque)       # function paths (or ids) never inlined
        self.lost = None
        self.itfns = {}
        self.open_fns = set(open_fns)   # function paths always inlined (overrides models)
        self.opts = opts or {}
        self.ncell = 0
        self.depth = 0
        self.stack = []
        self.exitlists = []
        self.panics = []
        self._noself = {}
        self.visited = set()
        self.ncalls = 0
        self.unknown = {}
        self.constmemo = {}
        self.steps = 0
        self.cols = 0
        self.maxsteps = self.opts.get("maxsteps", 3000000)

    # ------------------------------------------------------------ cells
    def alloc(self, st, v):
        self.ncell += 1
        st.cells[self.ncell] = v
        return self.ncell

    def read(self, st, cell, path=()):
        v = st.cells.get(cell)
        if v is None:
            return Top("dead cell")
        return self.readpath(v, path, st)

    def readpath(self, v, path, st):
        for p in path:
            if v.op == "ref":
                v = self.read(st, v.a[0], v.a[1])
            if p[0] == "f":
                v = T.payload(v, p[1], p[2], p[3]) if p[1] is not None and T.nvariants(p[1]) > 1 else T.field(v, p[1], p[2], p[3])
            elif p[0] == "i":
                v = T.idx(v, p[1])
            elif p[0] == "s":
                v = T.Slice(v, p[1], p[2])
            elif p[0] == "k":
                v = App("mapget!", v, p[1])
            else:
                v = Top("path")
        return v

    def prune(self, v, adt, vi):
        """drop alternatives of v that cannot be variant vi"""
        if v.op != "ite":
            return v
        a, b = self.prune(v.a[1], adt, vi), self.prune(v.a[2], adt, vi)
        if T.is_variant(a, adt, vi) is FALSE:
            return b
        if T.is_variant(b, adt, vi) is FALSE:
            return a
        return ite(v.a[0], a, b)

    def write(self, st, cell, path, new):
        if not path:
            st.cells[cell] = new
            return
        old = st.cells.get(cell)
        if old is None:
            return
        st.cells[cell] = self.writepath(old, path, new, st)

    def writepath(self, v, path, new, st):
        if v.op == "ref" and path:
            self.write(st, v.a[0], v.a[1] + tuple(path), new)
            return v
        if not path:
            return new
        p = path[0]
        if v.op == "ite" and p[0] == "f":
            return ite(v.a[0], self.writepath(v.a[1], path, new, st), self.writepath(v.a[2], path, new, st))
        if p[0] == "f":
            adt, vi, i = p[1], p[2], p[3]
            if adt is None:
                if v.op != "tuple":
                    n = p[4] if len(p) > 4 else i + 1
                    v = T.Tuple(*[T.field(v, None, 0, k) for k in range(n)])
                fs = list(v.a)
                fs[i] = self.writepath(fs[i], path[1:], new, st)
                return T.Tuple(*fs)
            if v.op != "adt":
                info = T.ADT_INFO.get(adt)
                nf = len(info["variants"][vi]["fields"]) if info else i + 1
                get = T.payload if T.nvariants(adt) > 1 else T.field
                fs = [get(v, adt, vi, k) for k in range(nf)]
            else:
                fs = list(v.a[2:])
            if i >= len(fs):
                return Top("write field")
            fs[i] = self.writepath(fs[i], path[1:], new, st)
            return T.Adt(adt, vi, fs)
        if p[0] == "i":
            old = T.idx(v, p[1]) if len(path) > 1 else None
            x = self.writepath(old, path[1:], new, st) if len(path) > 1 else new
            return T.Store(v, p[1], x)
        if p[0] == "k":
            x = self.writepath(App("mapget!", v, p[1]), path[1:], new, st) if len(path) > 1 else new
            return App("mapput", v, p[1], self.reify(x, st))
        if p[0] == "s":
            lo, hi = p[1], p[2]
            sl = T.Slice(v, lo, hi)
            x = self.writepath(sl, path[1:], new, st)
            return splice(v, lo, hi, x)
        return Top("write path")

    def deref(self, st, v):
        n = 0
        while v.op == "ref" and n < 20:
            v = self.read(st, v.a[0], v.a[1])
            n += 1
        return v

    # ------------------------------------------------------------ types
    def ty(self, act, i):
        return self.P.subst(self.P.ty(act.fn.crate, i), act.tymap)

    # ------------------------------------------------------------ assume / branch / join
    def assume(self, st, c):
        if c is TRUE:
            return
        if c is FALSE:
            st.dead = True
            return
        lits = implied(c)
        st.path = st.path + (c,)
        if lits:
            for k, v in st.cells.items():
                if v.op in ("ite", "adt", "tuple", "tr", "eqc", "is", "eq", "eq0", "lt0", "bcond"):
                    w = restrict_deep(v, lits)
                    if w is not v:
                        st.cells[k] = w

    def under(self, st, c):
        """simplify a condition under the current path"""
        for p in st.path[-40:]:
            for a, val in implied(p):
                c = T.restrict(c, a, val)
        return c

    def merge_states(self, base_path, entries):
        """entries: list of (state) with absolute paths; returns merged State"""
        alive = [s for s in entries if not s.dead]
        if not alive:
            s = entries[0].copy()
            s.dead = True
            s.path = base_path
            return s, None
        tree = build_tree([(s.path[len(base_path):], s) for s in alive])
        if len(alive) == 1:
            return alive[0], ("leaf", alive[0])
        first = alive[0]
        keys = None
        cells = {}
        allk = set()
        for s in alive:
            allk.update(s.cells.keys())
        for k in allk:
            v0 = None
            same = True
            for s in alive:
                v = s.cells.get(k)
                if v is None:
                    continue
                if v0 is None:
                    v0 = v
                elif v is not v0:
                    same = False
                    break
            if same:
                cells[k] = v0
            else:
                d = v0
                cells[k] = fold_tree(tree, lambda s: s.cells.get(k, d))
        return State(cells, base_path), tree

    def branch(self, st, c, fa, fb):
        """evaluate fa under c and fb under not c, join. fa/fb: state -> value"""
        c = self.under(st, c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        base = st.path
        sa = st.copy()
        sb = st
        sb2 = st.copy()
        self.assume(sa, c)
        va = fa(sa) if not sa.dead else UNIT
        self.assume(sb2, T.NOT(c))
        vb = fb(sb2) if not sb2.dead else UNIT
        if sa.dead and sb2.dead:
            st.dead = True
            return UNIT
        if sa.dead:
            st.assign(sb2)
            return vb
        if sb2.dead:
            st.assign(sa)
            return va
        # join (paths inside may have grown because of inner exits)
        cells = {}
        ca, cb = sa.cells, sb2.cells
        for k, v in ca.items():
            w = cb.get(k)
            cells[k] = v if (w is None or w is v) else self.jv(c, v, w)
        for k, w in cb.items():
            if k not in cells:
                cells[k] = w
        st.cells = cells
        ra, rb = sa.path[len(base) + 1:], sb2.path[len(base) + 1:]
        if ra or rb:
            st.path = base + (ite(c, T.AND(*ra), T.AND(*rb)),)
        else:
            st.path = base
        return self.jv(c, va, vb)

    def jv(self, c, a, b):
        a = UNIT if a is None else a
        b = UNIT if b is None else b
        if a is b:
            return a
        return ite(c, a, b)

    # ------------------------------------------------------------ calls
    def run(self, fn, args, tymap=None, st=None):
        """entry point: summary of fn.  args: list of N (Ref for &mut)"""
        st = st or State()
        v = self.call_fn(fn, args, tymap or {}, st)
        return v, st

    def call_fn(self, fn, args, tymap, st, parent=None):
        if self.depth > MAXDEPTH:
            return self.unk("recursion depth", fn.path)
        rec = sum(1 for s in self.stack if s is fn)
        if rec >= self.opts.get("recdepth", 1) and parent is None:
            return self.opaque_call(fn.path, args, st)
        self.visited.add(fn.id)
        self.ncalls += 1
        act = Act(fn, tymap, parent)
        mark = self.ncell
        base = st.path
        act.base = len(base)
        self.depth += 1
        self.stack.append(fn)
        self.exitlists.append(act.exits)
        try:
            ps = fn.params
            if parent is not None and len(ps) == len(args) + 1:
                ps = ps[1:]
            if len(ps) < len(args):
                args = args[:len(ps)]
            for p, a in zip(ps, args):
                if p.get("p") is not None:
                    self.bind_irrefutable(p["p"], a, None, act, st)
            v = self.ev(fn.root, act, st)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.exitlists.pop()
        entries = [(s, x) for s, x in act.exits]
        if not st.dead:
            f = st.copy()
            entries.append((f, v))
        if not entries:
            st.dead = True
            return UNIT
        if len(entries) == 1:
            s, x = entries[0]
            st.assign(s)
            extra = s.path[len(base):]
            st.path = base
            if extra:
                # a panic-guarded single exit: keep assumptions harmlessly dropped
                pass
            res = x
        else:
            vals = {id(s): x for s, x in entries}
            tree = build_tree([(s.path[len(base):], s) for s, _ in entries])
            res = fold_tree(tree, lambda s: vals[id(s)])
            m, _ = self.merge_states(base, [s for s, _ in entries])
            st.assign(m)
            st.path = base
            st.dead = False
        # drop locals unless they may escape
        if not escapes(res):
            for k in [k for k in st.cells if k > mark]:
                if not any_ref(st, k, mark):
                    del st.cells[k]
        return res

    def popexit(self, l):
        for k in range(len(self.exitlists) - 1, -1, -1):
            if self.exitlists[k] is l:
                del self.exitlists[k]
                return

    def unk(self, why, what=""):
        self.unknown[(why, what)] = self.unknown.get((why, what), 0) + 1
        return Top(why + " " + what)

    def call_clo(self, f, args, st):
        f = self.deref(st, f)
        if f.op == "ite":
            return self.branch(st, f.a[0], lambda s: self.call_clo(f.a[1], args, s), lambda s: self.call_clo(f.a[2], args, s))
        if f.op == "clo":
            cid, act = f.a
            fn = self.P.fns.get(cid)
            if fn is None:
                return self.unk("closure body", cid)
            return self.call_fn(fn, list(args), act.tymap, st, parent=act)
        if f.op == "fnitem":
            return self.call_item(f.a[0], list(args), st, f.a[1])
        if f.op == "ctor":
            return T.Adt(f.a[0], f.a[1], [self.deref(st, x) for x in args])
        if f.op == "lam":
            return T.apply_lam(f, *args)
        if f.op == "ignarg":
            return self.call_clo(f.a[0], [], st)
        return self.opaque_call("call", [f] + list(args), st)

    def call_item(self, calleekey, args, st, act):
        """call through a function item value (FnDef as value)"""
        callee, act0 = calleekey.a
        return self.dispatch(callee, args, st, act0, None)

    def ev_call(self, e, act, st):
        callee = e.get("callee")
        args = []
        if callee is None:
            f = self.ev(e["fun"], act, st)
            if st.dead:
                return UNIT
            for a in e["args"]:
                args.append(self.ev(a, act, st))
                if st.dead:
                    return UNIT
            return self.call_clo(f, args, st)
        for a in e["args"]:
            args.append(self.ev(a, act, st))
            if st.dead:
                return UNIT
        r = self.dispatch(callee, args, st, act, e)
        self.note_len(r, self.ty(act, e["t"]), st)
        return r

    def dispatch(self, callee, args, st, act, e):
        P = self.P
        if callee.get("ctor"):
            return T.Adt(callee["adt"], callee["vi"], args)
        targs = tuple(P.subst(P.garg(act.fn.crate, g), act.tymap) for g in callee["args"])
        c = Call()
        c.it = self
        c.st = st
        c.act = act
        c.e = e
        c.args = args
        c.callee = callee
        c.trait = callee.get("trait")
        c.targs = targs
        c.name = callee.get("name")
        c.key = key_of(callee["id"])
        c.retty = self.ty(act, e["t"]) if e is not None else None
        # 1. resolve
        fid, tymap = None, None
        if c.trait:
            name = c.name
            # concrete resolution by rustc for this (generic) body
            if callee.get("rid"):
                fid = callee["rid"]
                ra = tuple(P.subst(P.garg(act.fn.crate, g), act.tymap) for g in callee["rargs"])
                f = P.fns.get(fid)
                if f is not None:
                    tymap = dict(zip(f.generics, ra))
            if fid is None or (fid not in P.fns):
                im, m = P.find_impl(c.trait, targs)
                if im is not None:
                    it = im["itemmap"].get(name)
                    if it:
                        fid = it[1]
                        f = P.fns.get(fid)
                        if f is not None:
                            ng = len(P.traits[c.trait]["generics"])
                            own = f.generics[len(im["generics"]):]
                            tymap = dict(m)
                            tymap.update(zip(own, targs[ng:]))
                    else:
                        d = P.traits[c.trait]["items"].get(name)
                        if d and d[0] in P.fns:
                            fid = d[0]
                            tymap = dict(zip(P.fns[fid].generics, targs))
            if fid is None and not P.impl_overrides(c.trait, name):
                d = P.traits.get(c.trait, {"items": {}})["items"].get(name)
                if d and d[2] and d[0] in P.fns:
                    fid = d[0]
                    tymap = dict(zip(P.fns[fid].generics, targs))
        else:
            fid = callee["id"]
            f = P.fns.get(fid)
            if f is not None:
                tymap = dict(zip(f.generics, targs))
        fn = P.fns.get(fid) if fid else None
        path = fn.path if fn is not None else None
        if fn is not None and (path in self.open_fns):
            return self.call_fn(fn, args, tymap, st)
        # 2. models (by resolved path, by key)
        m = None
        if path is not None:
            m = self.models.get(path) or self.models.get(key_of(fid))
        if m is None and not (fn is not None and c.trait in VIEWS and path not in self.opaque):
            m = self.models.get(c.key)
        if m is not None:
            r = m(c)
            if r is not NotImplemented:
                return r
        # 3. inline
        if fn is not None and path not in self.opaque and fn.id not in self.opaque and not self.is_opaque(fn):
            return self.call_fn(fn, args, tymap, st)
        # 4. uninterpreted
        nm = path if path is not None else c.key
        if c.trait:
            nm = c.trait.rsplit("::", 1)[-1] + "::" + c.name
            if targs and (not args or self.no_self(c.trait, c.name)):
                nm = nm + "<" + tyname(targs[0]) + ">"
        elif not args and targs:
            nm = nm + "<" + ",".join(tyname(x) for x in targs) + ">"
        elif targs:
            ts = [tyname(x) for x in targs if x[0] == "adt" and x[1].split("::")[0] not in ("core", "alloc", "std") and closed_ty(x)]
            if ts:
                nm = nm + "<" + ",".join(ts) + ">"
        r = self.opaque_call(nm, args, st, self.opts.get("history", True) or not self.circuit_handle(e, args, act))
        if 0 in st.cells and self.worldly(c, nm, args, r):
            st.cells[0] = Tr(st.cells[0], (Ev(nm, *[self.reify(self.deref(st, a) if a.op == "ref" else a, st) for a in args]),))
        t = c.retty
        if t is not None and t[0] == "ref" and t[1] == 1 and fn is None and args and args[0].op == "ref" and t[2][0] == "adt" and e is not None and e.get("args"):
            t0 = self.ty(act, act.fn.exprs[e["args"][0]]["t"])
            if t0[0] == "ref" and t0[2] == t[2]:
                # &mut self -> &mut Self of an external type: the receiver, for chaining
                return args[0]
        if t is not None and t[0] == "adt" and t[1] == T.RES and r.op == "app" and t[2] and tuple(t[2][0])[:1] == ("tuple",) and not t[2][0][1]:
            # Result<(), E>: success carries nothing
            return T.ite(T.is_variant(r, T.RES, 0, 2), T.Ok(UNIT), T.Err(T.payload(r, T.RES, 1, 0)))
        return r

    def worldly(self, c, nm, args, r):
        """a call whose only possible effect is outside the program's data: no result and no mutable argument, or file output"""
        if nm.startswith(("std::fs::write", "std::fs::remove", "std::fs::rename", "std::fs::create", "std::process::")):
            return True
        if any(a.op == "ref" for a in args) or nm.startswith(QUIET):
            return False
        t = c.retty
        return t is not None and (tuple(t) == ("tuple", ()) or t[0] == "tuple" and len(t) > 1 and not t[1])

    def no_self(self, trait, name):
        """associated function without a receiver (as declared by some implementation in the workspace)"""
        k = (trait, name)
        r = self._noself.get(k)
        if r is None:
            r = False
            for im in self.P.impls_by_trait.get(trait, ()):
                it = im["itemmap"].get(name)
                f = self.P.fns.get(it[1]) if it else None
                if f is not None:
                    p0 = f.params[0].get("p") if f.params else None
                    r = not (p0 and p0.get("name") == "self")
                    break
            self._noself[k] = r
        return r

    def is_opaque(self, fn):
        f = self.opts.get("opaque_pred")
        return bool(f and f(fn))

    def circuit_handle(self, e, args, act):
        """the object an effectful call works on is a circuit under construction (its results do not depend on earlier calls)"""
        k = next((k for k, a in enumerate(args) if a.op == "ref"), None)
        xs = e.get("args") if e is not None else None
        if k is None or xs is None or k >= len(xs):
            return True
        t = self.ty(act, act.fn.exprs[xs[k]]["t"])
        while t[0] == "ref":
            t = t[2]
        if t[0] == "adt":
            return t[1].startswith(("halo2_proofs::circuit::", "halo2_proofs::plonk::circuit::"))
        return t[0] != "tuple"

    def opaque_call(self, nm, args, st, hist=None):
        vals = []
        refs = []
        nested = []
        for a in args:
            if a.op in ("adt", "tuple", "arr", "app", "ite"):
                find_refs(a, nested)
            if a.op == "ref":
                v = T.tr_norm(self.deref(st, a))
                refs.append((len(vals), a, v))
                vals.append(v)
            else:
                vals.append(self.reify(a, st))
        if not refs:
            res = App(nm, *vals)
            for n, r in enumerate(nested):
                self.write_ref(st, r, _mk("out", (n, res)))
            return res
        # effectful call: the first &mut argument is the object; others become outputs
        k0, r0, v0 = refs[0]
        if hist is None:
            hist = self.opts.get("history", True)
        vals2 = [self.reify(v, st) for v in vals]
        others = [x for j, x in enumerate(vals2) if j != k0]
        ev = Ev(nm, *others)
        self.write_ref(st, r0, Tr(v0, (ev,)))
        if not hist:
            b0, _ = T.tr_split(v0)
            vals2[k0] = b0 if b0.op == "sym" else UNIT
        res = App(nm, *vals2)
        for n, (k, r, v) in enumerate(refs[1:]):
            self.write_ref(st, r, _mk("out", (n, res)))
        for n, r in enumerate(nested):
            self.write_ref(st, r, _mk("out", (len(refs) + n, res)))
        return res

    def write_ref(self, st, r, new):
        # follow nested refs
        while True:
            cur = self.read(st, r.a[0], r.a[1])
            if cur.op == "ref":
                r = cur
            else:
                break
        self.write(st, r.a[0], r.a[1], new)

    # ------------------------------------------------------------ reify closures / iterators in values
    def reify(self, v, st, seen=0):
        if v.op == "clo":
            return self.reify_clo(v, st)
        if v.op == "it":
            s2 = st.copy()
            return self.collect(v, s2)
        if v.op == "fnitem":
            return _mk("fnref", (v.a[0].a[0]["id"],))
        if v.op == "ref":
            return self.reify(self.deref(st, v), st)
        if v.op in ("adt", "tuple", "arr", "ite", "app", "cat", "ev", "tr") and has_clo(v):
            out = []
            for x in v.a:
                if x.__class__ is N:
                    out.append(self.reify(x, st))
                elif x.__class__ is tuple:
                    out.append(tuple(self.reify(y, st) if y.__class__ is N else y for y in x))
                else:
                    out.append(x)
            return T.rebuild(v.op, tuple(out))
        return v

    def reify_clo(self, v, st):
        cid, act = v.a
        fn = self.P.fns.get(cid)
        if fn is None:
            return self.unk("closure", cid)
        nparams = len(fn.params) - 1
        if nparams < 0:
            nparams = 0
        # annotation closures returning strings carry no meaning
        rt = self.P.subst(self.P.ty(fn.crate, fn.ret), act.tymap) if fn.ret is not None else None
        if rt is not None and is_stringy(rt):
            return _mk("anno", ())
        fs = [Fresh("p") for _ in range(nparams)]
        if self.depth > MAXDEPTH - 5:
            return Top("closure depth")
        s2 = st.copy()
        args = []
        cellargs = []
        for p, f in zip(fn.params[1:], fs):
            t = self.P.ty(fn.crate, p["t"])
            if t[0] == "ref" and t[1] == 1:
                c = self.alloc(s2, f)
                cellargs.append(c)
                args.append(Ref(c))
            else:
                args.append(f)
        r = self.call_fn(fn, args, act.tymap, s2, parent=act)
        if s2.dead:
            r = _mk("diverge", ())
        r = self.reify(self.deref(s2, r), s2)
        if cellargs:
            r = T.Tuple(r, *[self.reify(s2.cells.get(c, Top("x")), s2) for c in cellargs])
        if not fs:
            return _mk("thunk", (r,))
        return Lam(fs, r)

    # ------------------------------------------------------------ patterns
    def bind_irrefutable(self, p, v, place, act, st):
        c = self.pat(p, v, place, act, st)
        return c

    def pat(self, p, v, place, act, st):
        """returns condition; binds variables"""
        k = p["k"]
        if k == "wild":
            return TRUE
        if k == "bind":
            cond = TRUE
            if p.get("sub") is not None:
                cond = self.pat(p["sub"], v, place, act, st)
            br = p["br"]
            if br == 2 and place is not None:
                x = Ref(place[0], place[1])
            elif br == 2:
                c = self.alloc(st, v)
                x = Ref(c)
            else:
                x = v
            act.vars[p["var"]] = self.alloc(st, x)
            return cond
        if k == "deref":
            if v.op == "ref":
                return self.pat(p["sub"], self.read(st, v.a[0], v.a[1]), (v.a[0], v.a[1]), act, st)
            return self.pat(p["sub"], v, place, act, st)
        if k == "variant":
            v = self.deref(st, v) if v.op == "ref" else v
            adt, vi = p["adt"], p["vi"]
            c = T.is_variant(v, adt, vi)
            cs = [c]
            if c is FALSE:
                for i, sp in p["subs"]:
                    self.bind_dead(sp, act, st)
                return FALSE
            for i, sp in p["subs"]:
                x = T.payload(v, adt, vi, i)
                pl = (place[0], place[1] + (("f", adt, vi, i),)) if place else None
                cs.append(self.pat(sp, x, pl, act, st))
            return T.AND(*cs)
        if k == "leaf":
            t = self.ty(act, p["t"])
            if v.op == "ref":
                place = (v.a[0], v.a[1])
                v = self.deref(st, v)
            cs = []
            for i, sp in p["subs"]:
                if t[0] == "adt":
                    x = T.field(v, t[1], 0, i)
                    pl = (place[0], place[1] + (("f", t[1], 0, i),)) if place else None
                else:
                    x = T.field(v, None, 0, i)
                    n = len(t[1]) if t[0] == "tuple" else i + 1
                    pl = (place[0], place[1] + (("f", None, 0, i, n),)) if place else None
                cs.append(self.pat(sp, x, pl, act, st))
            return T.AND(*cs)
        if k == "const":
            return T.eq(v, lit(p["v"]))
        if k == "range":
            cs = []
            if p.get("lo"):
                cs.append(T.le(lit(p["lo"]), v))
            if p.get("hi"):
                hi = lit(p["hi"])
                cs.append(T.le(v, hi) if p["incl"] else T.lt(v, hi))
            return T.AND(*cs)
        if k == "slice":
            n = T.seqlen(v)
            pre, suf = p["pre"], p["suf"]
            cs = []
            need = Int(len(pre) + len(suf))
            t = self.ty(act, p["t"])
            if t[0] == "array":
                pass
            elif p.get("mid") is None:
                cs.append(T.eq(n, need))
            else:
                cs.append(T.le(need, n))
            if cs and cs[0] is FALSE:
                for sp in pre + suf + ([p["mid"]] if p.get("mid") else []):
                    self.bind_dead(sp, act, st)
                return FALSE
            for i, sp in enumerate(pre):
                pl = (place[0], place[1] + (("i", Int(i)),)) if place else None
                cs.append(self.pat(sp, T.idx(v, Int(i)), pl, act, st))
            if p.get("mid") is not None:
                lo, hi = Int(len(pre)), T.sub(n, Int(len(suf)))
                pl = (place[0], place[1] + (("s", lo, hi),)) if place else None
                cs.append(self.pat(p["mid"], T.Slice(v, lo, hi), pl, act, st))
            for i, sp in enumerate(suf):
                ii = T.sub(n, Int(len(suf) - i))
                pl = (place[0], place[1] + (("i", ii),)) if place else None
                cs.append(self.pat(sp, T.idx(v, ii), pl, act, st))
            return T.AND(*cs)
        if k == "or":
            r = FALSE
            binds = None
            allb = []
            for q in p["pats"]:
                before = dict(act.vars)
                c = self.pat(q, v, place, act, st)
                b = {x: act.vars[x] for x in act.vars if before.get(x) != act.vars[x]}
                allb.append((c, b))
                r = T.OR(r, c)
            if allb and allb[0][1]:
                names = {}
                # bindings with the same name in each alternative share var ids in HIR
                for x in allb[0][1]:
                    val = None
                    for c, b in reversed(allb):
                        if x in b:
                            w = st.cells[b[x]]
                            val = w if val is None else ite(c, w, val)
                    act.vars[x] = self.alloc(st, val)
            return r
        return _mk("bcond", (self.unk("pattern", k),))

    def bind_dead(self, p, act, st):
        k = p["k"]
        if k == "bind":
            act.vars[p["var"]] = self.alloc(st, Top("dead binding"))
        for x in (p.get("subs") or []):
            self.bind_dead(x[1], act, st)
        for kk in ("pre", "suf", "pats"):
            for x in (p.get(kk) or []):
                self.bind_dead(x, act, st)
        for kk in ("sub", "mid"):
            if p.get(kk):
                self.bind_dead(p[kk], act, st)

    # ------------------------------------------------------------ expressions
    def ev(self, i, act, st):
        e = act.fn.exprs[i]
        k = e["k"]
        while k == "scope":
            sc = e["sc"]
            i = e["v"]
            e2 = act.fn.exprs[i]
            if e2["k"] == "loop":
                return self.ev_loop(e2, sc, act, st)
            e, k = e2, e2["k"]
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Stuck("step budget")
        m = self.EV.get(k)
        if m is None:
            return self.unk("expr", k)
        return m(self, e, act, st)

    def ex(self, act, i):
        e = act.fn.exprs[i]
        while e["k"] in ("scope", "use"):
            e = act.fn.exprs[e["v"]]
        return e

    def ev_lit(self, e, act, st):
        return lit(e["v"])

    def ev_var(self, e, act, st):
        c = act.lookup(e["var"])
        v = st.cells.get(c)
        return v if v is not None else Top("uninitialised")

    def ev_use(self, e, act, st):
        return self.ev(e["v"], act, st)

    def ev_never(self, e, act, st):
        self.ev(e["v"], act, st)
        st.dead = True
        return UNIT

    def ev_coerce(self, e, act, st):
        v = self.ev(e["v"], act, st)
        self.note_len(v, self.ty(act, self.ex(act, e["v"])["t"]), st)
        return v

    def note_len(self, v, t, st):
        """the length of a fixed-size array is part of its type"""
        while t[0] == "ref":
            t = t[2]
        if t[0] != "array" or st.dead:
            return
        x = self.deref(st, v)
        if x.op not in ("arr", "seq", "cat", "store", "upd", "rep", "sub", "rev", "ite", "top", "ref", "str", "it") and x not in T.FIXLEN:
            T.FIXLEN[x] = self.cst(t[2], None, st)

    def ev_tuple(self, e, act, st):
        out = []
        for x in e["vs"]:
            out.append(self.ev(x, act, st))
            if st.dead:
                return UNIT
        return T.Tuple(*out)

    def ev_array(self, e, act, st):
        out = []
        for x in e["vs"]:
            out.append(self.ev(x, act, st))
            if st.dead:
                return UNIT
        return T.Arr(out)

    def ev_repeat(self, e, act, st):
        v = self.ev(e["v"], act, st)
        return T.Rep(v, self.cst(self.P.cst(act.fn.crate, e["n"]), act, st))

    def cst(self, c, act, st):
        c = self.P.subst(c, act.tymap) if act is not None else c
        if c[0] == "c":
            return Int(c[1])
        if c[0] == "cparam":
            return T.Sym("const " + c[1])
        if c[0] == "calias":
            return self.const_val(c[1], c[2], None, st)
        return T.Sym("const " + str(c[1]))

    def ev_adt(self, e, act, st):
        adt, vi = e["adt"], e["vi"]
        info = T.ADT_INFO.get(adt)
        nf = len(info["variants"][vi]["fields"]) if info else len(e["fs"])
        fs = [None] * nf
        for i, x in e["fs"]:
            fs[i] = self.ev(x, act, st)
            if st.dead:
                return UNIT
        if e.get("base") is not None:
            b = self.ev(e["base"], act, st)
            for i in range(nf):
                if fs[i] is None:
                    fs[i] = T.field(b, adt, vi, i)
        return T.Adt(adt, vi, [f if f is not None else Top("field") for f in fs])

    def ev_closure(self, e, act, st):
        return _mk("clo", (e["id"], act))

    def ev_zst(self, e, act, st):
        c = e.get("callee")
        if c is None:
            t = self.ty(act, e["t"])
            if t[0] == "adt":
                return T.Adt(t[1], 0, [])
            return UNIT
        if c.get("ctor"):
            info = T.ADT_INFO.get(c["adt"])
            if info and not info["variants"][c["vi"]]["fields"]:
                return T.Adt(c["adt"], c["vi"], [])
            return _mk("ctor", (c["adt"], c["vi"]))
        return _mk("fnitem", (_HK(c, act), act))

    def ev_const(self, e, act, st):
        targs = tuple(self.P.subst(self.P.garg(act.fn.crate, g), act.tymap) for g in e["args"])
        if e["id"].startswith("core::") and e["id"].endswith(("::MAX", "::MIN")):
            t = self.P.ty(act.fn.crate, e["t"])
            if t[0] == "prim" and t[1] in WIDTH:
                w, sg = WIDTH[t[1]], t[1][0] == "i"
                hi = (1 << (w - 1)) - 1 if sg else (1 << w) - 1
                return Int(hi if e["id"].endswith("MAX") else -(1 << (w - 1)) if sg else 0)
        if e["id"].startswith("core::num::") and e["id"].endswith("::BITS"):
            m = re.search(r"\b([ui])(8|16|32|64|128|size)\b", e.get("path") or "")
            if m:
                return Int(64 if m.group(2) == "size" else int(m.group(2)))
        return self.const_val(e["id"], targs, e.get("trait"), st, e.get("path"))

    def const_val(self, cid, targs, trait, st, path=None):
        k = (cid, targs)
        r = self.constmemo.get(k)
        if r is not None:
            return r
        fn = self.P.fns.get(cid)
        tymap = None
        if trait and (fn is None or True):
            name = cid.rsplit("::", 1)[1]
            im, m = self.P.find_impl(trait, targs)
            if im is not None and name in im["itemmap"]:
                fn = self.P.fns.get(im["itemmap"][name][1])
                tymap = m
            elif im is None and fn is not None and targs and targs[0][0] in ("param", "alias"):
                if self.P.impl_overrides(trait, name):
                    fn = None
        m = self.models.get("const " + key_of(cid))
        if m is not None:
            r = m(self, cid, targs)
        elif fn is None or fn.path in self.opaque:
            nm = key_of(cid)
            if targs:
                nm += "<" + ",".join(tyname(x) for x in targs) + ">"
            r = T.Sym(nm)
        else:
            if tymap is None:
                tymap = dict(zip(fn.generics, targs))
            self.constmemo[k] = Top("recursive const")
            if len(fn.exprs) > self.opts.get("max_const", 20000):
                r = T.Sym(fn.path)
            else:
                s2 = State()
                r = self.call_fn(fn, [], tymap, s2)
                r = self.reify(self.deref(s2, r), s2)
        self.constmemo[k] = r
        return r

    def ev_static(self, e, act, st):
        fn = self.P.fns.get(e["id"])
        if fn is not None and len(fn.exprs) <= self.opts.get("max_const", 20000):
            return self.const_val(e["id"], (), None, st)
        return T.Sym("static " + e["id"])

    def ev_constblock(self, e, act, st):
        return self.const_val(e["id"], (), None, st)

    def ev_cparam(self, e, act, st):
        t = act.tymap.get(e["name"])
        if t is not None:
            return self.cst(t, None, st)
        return T.Sym("const " + e["name"])

    def ev_block(self, e, act, st):
        tb = e.get("tb")
        ctx = None
        if tb is not None:
            ctx = LoopCtx()
            act.loops[tb] = ctx
            self.exitlists.append(ctx.breaks)
            base = st.path
        v = self.block(e, act, st)
        if tb is not None:
            self.popexit(ctx.breaks)
            del act.loops[tb]
            if ctx.breaks:
                ents = list(ctx.breaks)
                if not st.dead:
                    ents.append((st.copy(), v))
                v = self.join_entries(base, ents, st)
        return v

    def join_entries(self, base, ents, st):
        vals = {id(s): x for s, x in ents}
        m, tree = self.merge_states(base, [s for s, _ in ents])
        r = fold_tree(tree, lambda s: vals[id(s)])
        st.assign(m)
        st.path = base
        st.dead = False
        return r

    def block(self, e, act, st):
        for s in e["st"]:
            if "e" in s:
                self.ev(s["e"], act, st)
            else:
                if "i" in s:
                    ei = self.ex(act, s["i"])
                    place = None
                    if needs_place(s["p"]) and ei["k"] in ("var", "upvar", "field", "deref", "index"):
                        place = self.lv(s["i"], act, st)
                        v = self.read(st, place[0], place[1])
                    else:
                        v = self.ev(s["i"], act, st)
                    if st.dead:
                        return UNIT
                    if "else" in s:
                        c = self.pat(s["p"], v, place, act, st)

                        def els(s2, blk=s["else"]):
                            self.block(blk, act, s2)
                            s2.dead = True
                            return UNIT
                        self.branch(st, c, lambda s2: UNIT, els)
                    else:
                        self.bind_irrefutable(s["p"], v, place, act, st)
                else:
                    self.declare(s["p"], act, st)
            if st.dead:
                return UNIT
        if e.get("e") is not None:
            return self.ev(e["e"], act, st)
        return UNIT

    def declare(self, p, act, st):
        if p["k"] == "bind":
            act.vars[p["var"]] = self.alloc(st, Top("uninit"))
        for x in (p.get("subs") or []):
            self.declare(x[1], act, st)

    def ev_if(self, e, act, st):
        c = self.cond(e["c"], act, st)
        if st.dead:
            return UNIT
        fa = lambda s: self.ev(e["a"], act, s)
        if e.get("b") is not None:
            fb = lambda s: self.ev(e["b"], act, s)
        else:
            fb = lambda s: UNIT
        return self.branch(st, c, fa, fb)

    def cond(self, i, act, st):
        e = self.ex(act, i)
        if e["k"] == "let":
            return self.ev_let(e, act, st)
        if e["k"] == "logic":
            return self.ev_logic(e, act, st)
        if e["k"] == "un" and e["op"] == "Not":
            return T.NOT(self.tobool(self.cond(e["v"], act, st)))
        return self.tobool(self.ev(i, act, st))

    def tobool(self, v):
        if v.op in ("bool", "ite") or v.op in T._BOOLOPS:
            return v
        return _mk("bcond", (v,))

    def ev_let(self, e, act, st):
        ei = self.ex(act, e["v"])
        place = None
        if needs_place(e["p"]) and ei["k"] in ("var", "upvar", "field", "deref", "index"):
            place = self.lv(e["v"], act, st)
            v = self.read(st, place[0], place[1])
        else:
            v = self.ev(e["v"], act, st)
        if st.dead:
            return FALSE
        return self.pat(e["p"], v, place, act, st)

    def ev_logic(self, e, act, st):
        a = self.cond(e["a"], act, st)
        if st.dead:
            return FALSE
        if e["op"] == "and":
            return self.branch(st, a, lambda s: self.cond(e["b"], act, s), lambda s: FALSE)
        return self.branch(st, a, lambda s: TRUE, lambda s: self.cond(e["b"], act, s))

    def ev_match(self, e, act, st):
        if e["src"] == "ForLoopDesugar":
            r = self.try_for(e, act, st)
            if r is not None:
                return r
        ei = self.ex(act, e["v"])
        place = None
        if ei["k"] in ("var", "upvar", "field", "deref", "index") and any(needs_place(a["p"]) for a in e["arms"]):
            place = self.lv(e["v"], act, st)
            v = self.read(st, place[0], place[1])
        else:
            v = self.ev(e["v"], act, st)
        if st.dead:
            return UNIT
        return self.arms(e["arms"], 0, v, place, act, st)

    def arms(self, arms, k, v, place, act, st):
        if k >= len(arms):
            st.dead = True
            return UNIT
        a = arms[k]
        c = self.pat(a["p"], v, place, act, st)
        if a.get("g") is not None:
            c0 = self.under(st, c)
            g = self.branch(st, c0, lambda s: self.cond(a["g"], act, s), lambda s: FALSE)
            c = T.AND(c, g)
        elif k == len(arms) - 1:
            c = TRUE
        return self.branch(st, c, lambda s: self.ev(a["b"], act, s),
                           lambda s: self.arms(arms, k + 1, v, place, act, s))

    def ev_return(self, e, act, st):
        v = UNIT
        if e.get("v") is not None:
            v = self.ev(e["v"], act, st)
        if not st.dead:
            act.exits.append((st.copy(), v))
        st.dead = True
        return UNIT

    def find_loop(self, act, sc):
        return act.loops.get(sc)

    def ev_break(self, e, act, st):
        v = UNIT
        if e.get("v") is not None:
            v = self.ev(e["v"], act, st)
        if not st.dead:
            ctx = act.loops.get(e["sc"])
            if ctx is None:
                raise Stuck("break target")
            ctx.breaks.append((st.copy(), v))
        st.dead = True
        return UNIT

    def ev_continue(self, e, act, st):
        if not st.dead:
            ctx = act.loops.get(e["sc"])
            if ctx is None:
                raise Stuck("continue target")
            ctx.conts.append((st.copy(), UNIT))
        st.dead = True
        return UNIT

    def ev_borrow(self, e, act, st):
        if e["m"]:
            c, p = self.lv(e["v"], act, st)
            if st.dead:
                return UNIT
            return Ref(c, p)
        return self.ev(e["v"], act, st)

    def ev_deref(self, e, act, st):
        v = self.ev(e["v"], act, st)
        if v.op == "ref":
            return self.read(st, v.a[0], v.a[1])
        if v.op == "ite":
            return self.deref_ite(v, st)
        return v

    def deref_ite(self, v, st):
        if v.op == "ite":
            return ite(v.a[0], self.deref_ite(v.a[1], st), self.deref_ite(v.a[2], st))
        if v.op == "ref":
            return self.read(st, v.a[0], v.a[1])
        return v

    def ev_field(self, e, act, st):
        v = self.ev(e["v"], act, st)
        if v.op == "ref":
            v = self.deref(st, v)
        t = self.ty(act, act.fn.exprs[e["v"]]["t"])
        while t[0] == "ref":
            t = t[2]
        if t[0] == "adt":
            if T.nvariants(t[1]) > 1:
                return T.payload(v, t[1], e["vi"], e["f"])
            return T.field(v, t[1], e["vi"], e["f"])
        return T.field(v, None, 0, e["f"])

    def ev_index(self, e, act, st):
        a = self.ev(e["a"], act, st)
        b = self.ev(e["b"], act, st)
        if st.dead:
            return UNIT
        return T.idx(self.deref(st, a), b)

    def ev_assign(self, e, act, st):
        v = self.ev(e["b"], act, st)
        if st.dead:
            return UNIT
        self.lost = None
        c, p = self.proxied(e, act, st, *self.lv(e["a"], act, st))
        self.lost_write(st, p, v)
        self.write(st, c, p, v)
        return UNIT

    def proxied(self, e, act, st, c, p):
        """a place of non-reference type reached through a proxy object that stands for another place"""
        if self.ex(act, e["a"])["k"] == "deref" and self.ty(act, act.fn.exprs[e["a"]]["t"])[0] != "ref":
            v = self.read(st, c, p)
            while v.op == "ref":
                c, p = v.a
                v = self.read(st, c, p)
        return c, p

    def lost_write(self, st, p, v):
        """a store through a pointer the analysis knows nothing about is an effect on the world"""
        q, self.lost = self.lost, None
        if q is not None and 0 in st.cells:
            st.cells[0] = Tr(st.cells[0], (Ev("store", self.reify(q, st), self.reify(v, st)),))

    def ev_assignop(self, e, act, st):
        b = self.ev(e["b"], act, st)
        if st.dead:
            return UNIT
        self.lost = None
        c, p = self.proxied(e, act, st, *self.lv(e["a"], act, st))
        q, self.lost = self.lost, None
        a = self.read(st, c, p)
        t = self.ty(act, act.fn.exprs[e["a"]]["t"])
        r = self.binop(e["op"], a, b, t, act, st)
        self.lost = q
        self.lost_write(st, p, r)
        self.write(st, c, p, r)
        return UNIT

    def ev_bin(self, e, act, st):
        a = self.ev(e["a"], act, st)
        b = self.ev(e["b"], act, st)
        if st.dead:
            return UNIT
        t = self.ty(act, act.fn.exprs[e["a"]]["t"])
        return self.binop(e["op"], a, b, t, act, st)

    def binop(self, op, a, b, t, act, st):
        a, b = self.deref(st, a), self.deref(st, b)
        return binop(op, a, b, t)

    def ev_un(self, e, act, st):
        v = self.deref(st, self.ev(e["v"], act, st))
        if e["op"] == "Neg":
            return T.neg(v)
        if e["op"] == "Not":
            t = self.ty(act, e["t"])
            if t == ("prim", "bool"):
                return T.NOT(self.tobool(v))
            if v.op == "int":
                return Int((~v.a[0]) & ((1 << bits(t)) - 1))
            return App("bitnot", v)
        return App("un" + e["op"], v)

    def ev_cast(self, e, act, st):
        v = self.ev(e["v"], act, st)
        ft = self.ty(act, act.fn.exprs[e["v"]]["t"])
        tt = self.ty(act, e["t"])
        return cast(v, ft, tt)

    # ------------------------------------------------------------ places
    def lv(self, i, act, st):
        e = act.fn.exprs[i]
        while e["k"] in ("scope", "use"):
            i = e["v"]
            e = act.fn.exprs[i]
        k = e["k"]
        if k in ("var", "upvar"):
            return act.lookup(e["var"]), ()
        if k == "field":
            c, p = self.lv(e["v"], act, st)
            t = self.ty(act, act.fn.exprs[e["v"]]["t"])
            v = self.read(st, c, p)
            if v.op == "ref":
                c, p = v.a
            if t[0] == "adt":
                return c, p + (("f", t[1], e["vi"], e["f"]),)
            n = len(t[1]) if t[0] == "tuple" else e["f"] + 1
            return c, p + (("f", None, 0, e["f"], n),)
        if k == "deref":
            be = self.ex(act, e["v"])
            if be["k"] in ("var", "upvar", "field", "deref", "index"):
                c, p = self.lv(e["v"], act, st)
                v = self.read(st, c, p)
                if v.op == "ref":
                    return v.a
                if v.op == "app":
                    self.lost = v
                return c, p
            v = self.ev(e["v"], act, st)
            if v.op == "ref":
                return v.a
            self.lost = v
            return self.alloc(st, v), ()
        if k == "index":
            c, p = self.lv(e["a"], act, st)
            v = self.read(st, c, p)
            if v.op == "ref":
                c, p = v.a
            b = self.ev(e["b"], act, st)
            return c, p + (("i", b),)
        v = self.ev(i, act, st)
        if v.op == "ref" and False:
            return v.a
        return self.alloc(st, v), ()

    # ------------------------------------------------------------ loops
    def try_for(self, e, act, st):
        """for-loop desugaring: match into_iter(x) { mut iter => loop { match next(&mut iter) { None=>break, Some(p)=>body } } }"""
        if len(e["arms"]) != 1:
            return None
        b = act.fn.exprs[e["arms"][0]["b"]]
        sc = None
        while b["k"] == "scope":
            sc = b["sc"]
            b = act.fn.exprs[b["v"]]
        if b["k"] != "loop":
            return None
        inner = self.ex(act, b["v"])
        while inner["k"] in ("block", "scope", "use", "never"):
            if inner["k"] == "block":
                if inner["st"] and inner.get("e") is None and len(inner["st"]) == 1 and "e" in inner["st"][0]:
                    inner = self.ex(act, inner["st"][0]["e"])
                elif inner.get("e") is not None:
                    inner = self.ex(act, inner["e"])
                else:
                    return None
            else:
                inner = act.fn.exprs[inner["v"]]
        if inner["k"] != "match":
            return None
        some = None
        for a in inner["arms"]:
            if a["p"]["k"] == "variant" and a["p"]["vi"] == 1:
                some = a
        if some is None:
            return None
        itv = self.ev(e["v"], act, st)
        if st.dead:
            return UNIT
        pat = some["p"]["subs"][0][1] if some["p"]["subs"] else {"k": "wild"}

        def body(v, s):
            base = s.path
            ctx.conts, saved = [], ctx.conts
            self.exitlists.append(ctx.conts)
            self.bind_irrefutable(pat, v, None, act, s)
            self.ev(some["b"], act, s)
            self.popexit(ctx.conts)
            conts, ctx.conts = ctx.conts, saved
            if conts:
                ents = list(conts)
                if not s.dead:
                    ents.append((s.copy(), UNIT))
                extra = None
                self.join_entries(base, ents, s)
        ctx = LoopCtx()
        act.loops[sc] = ctx
        self.exitlists.append(ctx.breaks)
        base = st.path
        self.drive(itv, body, st)
        self.popexit(ctx.breaks)
        del act.loops[sc]
        if ctx.breaks:
            ents = list(ctx.breaks)
            if not st.dead:
                ents.append((st.copy(), UNIT))
            return self.join_entries(base, ents, st)
        return UNIT

    def ev_loop_plain(self, e, act, st):
        return self.ev_loop(e, None, act, st)

    def ev_loop(self, e, sc, act, st):
        """general loop: exits only by break/return"""
        ctx = LoopCtx()
        act.loops[sc] = ctx
        self.exitlists.append(ctx.breaks)
        base = st.path

        def body(i, s):
            b2 = s.path
            ctx.conts, saved = [], ctx.conts
            self.exitlists.append(ctx.conts)
            self.ev(e["v"], act, s)
            self.popexit(ctx.conts)
            conts, ctx.conts = ctx.conts, saved
            if conts:
                ents = list(conts)
                if not s.dead:
                    ents.append((s.copy(), UNIT))
                self.join_entries(b2, ents, s)
        # try concrete unrolling first (conditions fold to constants)
        ok = self.unroll_loop(body, ctx, st)
        if not ok:
            self.loop(T.INF, body, st, ctx=ctx)
        self.popexit(ctx.breaks)
        del act.loops[sc]
        if not ctx.breaks:
            st.dead = True
            return UNIT
        ents = list(ctx.breaks)
        if not st.dead:
            pass
        return self.join_entries(base, ents, st)

    def unroll_loop(self, body, ctx, st):
        """constant-condition loops: iterate while each iteration decides break/continue without symbolic conditions"""
        s = st.copy()
        n0 = [len(x) for x in self.exitlists]
        saved_unknown = dict(self.unknown)
        pm = len(self.panics)
        limit = self.opts.get("while_unroll", 300)
        steps0 = self.steps
        for k in range(limit):
            nb = len(ctx.breaks)
            base = s.path
            body(None, s)
            new = ctx.breaks[nb:]
            if s.dead and len(new) == 1 and len(new[0][0].path) == len(base):
                st.assign(s)
                return True
            if s.dead and not new:
                # returned / panicked unconditionally
                st.assign(s)
                return True
            if new or self.steps - steps0 > 200000:
                # symbolic decision: give up
                for x, n in zip(self.exitlists, n0):
                    del x[n:]
                self.unknown = saved_unknown
                del self.panics[pm:]
                return False
        del self.panics[pm:]
        for x, n in zip(self.exitlists, n0):
            del x[n:]
        self.unknown = saved_unknown
        return False

    def loop(self, n, body, st, ctx=None):
        """execute body(i, st) for i in 0..n"""
        if n.op == "int" and n.a[0] <= 0:
            return
        if n.op == "int" and n.a[0] <= self.opts.get("unroll", UNROLL):
            for k in range(n.a[0]):
                body(Int(k), st)
                if st.dead:
                    return
            return
        LoopSummary(self, n, body, st).run()

    # ------------------------------------------------------------ iterators (implemented in iters.py)
    def drive(self, it, body, st):
        from . import iters
        return iters.drive(self, it, body, st)

    def collect(self, it, st):
        from . import iters
        return iters.collect(self, it, st)

    EV = {}


def find_refs(v, out):
    """mutable references held inside a by-value argument"""
    if v.op == "ref":
        if v not in out:
            out.append(v)
    elif v.op in ("adt", "tuple", "arr", "app", "ite"):
        for x in v.a:
            if x.__class__ is N:
                find_refs(x, out)


def closed_ty(t):
    if t[0] in ("param", "cparam", "alias", "calias", "closure", "other", "copaque", "rec", "dyn", "fnptr", "fndef"):
        return False
    return all(closed_ty(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) and \
        all(closed_ty(y) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], tuple) for y in x)


class _HKT:
    pass


_hk = {}


def _HK(callee, act):
    """hashable wrapper for a callee description; interned by identity"""
    k = (id(callee), id(act))
    r = _hk.get(k)
    if r is None:
        r = _mk("hk", (), unique=True)
        r.a = (callee, act)
        _hk[k] = r
    return r


for _k in ("lit var use never coerce tuple array repeat adt closure zst const static constblock cparam block if let logic match "
           "return break continue borrow deref field index assign assignop bin un cast call").split():
    Interp.EV[_k] = getattr(Interp, "ev_" + _k)
Interp.EV["upvar"] = Interp.ev_var
Interp.EV["loop"] = Interp.ev_loop_plain


def needs_place(p):
    if p["k"] == "bind" and p["br"] == 2:
        return True
    for x in (p.get("subs") or []):
        if needs_place(x[1]):
            return True
    for kk in ("pre", "suf", "pats"):
        for x in (p.get(kk) or []):
            if needs_place(x):
                return True
    for kk in ("sub", "mid"):
        if p.get(kk) and needs_place(p[kk]):
            return True
    return False


_cm = {}


def has_clo(v):
    r = _cm.get(v)
    if r is not None:
        return r
    _cm[v] = False
    r = False
    if v.op in ("clo", "it", "fnitem", "ref"):
        r = True
    else:
        for x in v.a:
            if x.__class__ is N:
                if has_clo(x):
                    r = True
                    break
            elif x.__class__ is tuple:
                if any(has_clo(y) for y in T._walk_tuple(x)):
                    r = True
                    break
    _cm[v] = r
    return r


def escapes(v):
    return has_clo(v)


def any_ref(st, k, mark):
    return False


def is_stringy(t):
    while t[0] == "ref":
        t = t[2]
    if t == ("prim", "str"):
        return True
    if t[0] == "adt" and t[1] in ("alloc::string::String",):
        return True
    if t[0] == "param" and t[1] in ("NR", "AR", "A", "N", "NL"):
        return False
    return False


def lit(v):
    k = v[0]
    if k == "int":
        return Int(v[1])
    if k == "bool":
        return T.Bool(v[1])
    if k == "str":
        return T.Str(v[1])
    if k == "bytes":
        return T.Arr([Int(x) for x in v[1]])
    if k == "float":
        return T.Sym("float " + v[1])
    return Top("literal " + k)


WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32, "bool": 1}


def bits(t):
    return WIDTH.get(t[1], 64) if t[0] == "prim" else 64


def signed(t):
    return t[0] == "prim" and t[1].startswith("i")


def wrap_const(v, t):
    b = bits(t)
    v &= (1 << b) - 1
    if signed(t) and v >> (b - 1):
        v -= 1 << b
    return v


def cast(v, ft, tt):
    if tt[0] != "prim":
        return v
    if ft == ("prim", "bool"):
        if v is TRUE:
            return T.ONE
        if v is FALSE:
            return T.ZERO
        return ite(T.asbool(v), T.ONE, T.ZERO)
    if v.op == "int":
        return Int(wrap_const(v.a[0], tt)) if tt[1] in WIDTH else v
    if v.op == "adt":
        info = T.ADT_INFO.get(v.a[0])
        if info and info["discr"]:
            return Int(info["discr"][v.a[1]])
    if ft[0] == "adt":
        return App("discr", v)
    if ft[0] != "prim" or tt[1] not in WIDTH or ft[1] not in WIDTH:
        return v
    if v.op == "ite":
        return ite(v.a[0], cast(v.a[1], ft, tt), cast(v.a[2], ft, tt))
    fb, tb = bits(ft), bits(tt)
    if signed(ft) == signed(tt):
        if tb >= fb:
            return v
        return trunc(v, tb, signed(tt))
    if not signed(ft) and signed(tt):
        if tb > fb:
            return v
        return App("as_" + tt[1], v)
    # signed -> unsigned
    if tb >= fb:
        return App("as_" + tt[1], v)
    return trunc(v, tb, False)


def trunc(v, b, sg=False):
    if v.op == "int":
        return Int(wrap_const(v.a[0], ("prim", ("i" if sg else "u") + str(b))))
    if v.op == "app" and v.a[0] == "trunc" and v.a[2].a[0] <= b:
        return v
    return App("trunc", v, Int(b)) if not sg else App("itrunc", v, Int(b))


def _asc(a, b):
    return (a, b) if a.id < b.id else (b, a)


def binop(op, a, b, t):
    isbool = t == ("prim", "bool")
    if op in ("+", "-"):
        if t[0] == "prim" and t[1] in WIDTH and a.op == "app" and a.a[0] == "trunc" and b.op == "int" and a.a[2].a[0] == bits(t):
            # both the cast and the sum are modulo 2^w
            return trunc(T.add(a.a[1], b) if op == "+" else T.sub(a.a[1], b), bits(t))
        return T.add(a, b) if op == "+" else T.sub(a, b)
    if op == "*":
        return T.mul(a, b)
    if op == "==":
        return T.eq(a, b)
    if op == "!=":
        return T.NOT(T.eq(a, b))
    if op in ("<", ">", "<=", ">="):
        if op in (">", "<="):
            x, y = b, a
        else:
            x, y = a, b
        r = T.lt(x, y)
        if t[0] == "prim" and t[1] in WIDTH and not signed(t):
            if y is T.ONE:
                r = T.eq(x, T.ZERO)
            elif y is T.ZERO:
                r = FALSE
            elif x is T.ZERO:
                r = T.NOT(T.eq(y, T.ZERO))
        return r if op in ("<", ">") else T.NOT(r)
    if isbool:
        if op == "&":
            return T.AND(a, b)
        if op == "|":
            return T.OR(a, b)
        if op == "^":
            return ite(a, T.NOT(b), b)
    return intop(op, a, b, t)


def intop(op, a, b, t):
    if a.op == "int" and b.op == "int":
        x, y = a.a[0], b.a[0]
        try:
            if op == "/":
                return Int(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
            if op == "%":
                return Int(x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)))
            if op == "<<":
                return Int(wrap_const(x << y, t))
            if op == ">>":
                return Int(x >> y)
            if op == "&":
                return Int(x & y)
            if op == "|":
                return Int(x | y)
            if op == "^":
                return Int(x ^ y)
        except (ZeroDivisionError, ValueError):
            return Top("arith")
    if op == "<<":
        if b.op == "int":
            return App("shl", a, b) if b.a[0] >= 16 else T.scale(a, 1 << b.a[0])
        if a is T.ONE:
            return App("pow2", b)
        return App("shl", a, b)
    if op == ">>":
        if b is T.ZERO:
            return a
        if b.op == "int" and a.op == "app" and a.a[0] == "shr" and a.a[2].op == "int":
            return App("shr", a.a[1], T.add(a.a[2], b))
        return App("shr", a, b)
    if op in ("&", "|", "^"):
        if op == "&" and (a is T.ZERO or b is T.ZERO):
            return T.ZERO
        if op in "|^" and a is T.ZERO:
            return b
        if op in "|^" and b is T.ZERO:
            return a
        xs = []
        nm = {"&": "band", "|": "bor", "^": "bxor"}[op]
        for x in (a, b):
            if x.op == "app" and x.a[0] == nm:
                xs.extend(x.a[1:])
            else:
                xs.append(x)
        if op != "^":
            xs = list(dict.fromkeys(xs))
        xs.sort(key=lambda n: n.id)
        return App(nm, *xs) if len(xs) > 1 else xs[0]
    if op == "/":
        if b is T.ONE:
            return a
        if t[0] == "prim" and signed(t):
            return App("sdiv", a, b)
        if b.op == "int" and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0:
            return intop(">>", a, Int(b.a[0].bit_length() - 1), t)
        return App("div", a, b)
    if op == "%":
        if t[0] == "prim" and signed(t):
            return App("srem", a, b)
        if b.op == "int" and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0:
            return intop("&", a, Int(b.a[0] - 1), t)
        return App("rem", a, b)
    return App("op" + op, a, b)


def splice(v, lo, hi, x):
    if x.op == "sub" and x.a[0] is v and x.a[1] is lo and x.a[2] is hi:
        return v
    n = T.seqlen(v)
    if lo is T.ZERO and hi is n:
        return x
    if x.op == "arr" and len(x.a) == 1 and T.sub(hi, lo) is T.ONE:
        return T.Store(v, lo, x.a[0])
    if x.op == "store":
        part = T.Slice(v, lo, hi)
        st, y = [], x
        while y.op == "store":
            st.append((y.a[1], y.a[2]))
            y = y.a[0]
        if y is part:
            for i, e in reversed(st):
                v = T.Store(v, T.add(lo, i), e)
            return v
    if lo.op == "int" and hi.op == "int" and v.op == "arr":
        xs = x.a if x.op == "arr" and len(x.a) == hi.a[0] - lo.a[0] else [T.idx(x, Int(i)) for i in range(hi.a[0] - lo.a[0])]
        return T.Arr(v.a[:lo.a[0]] + tuple(xs) + v.a[hi.a[0]:])
    return T.Cat(T.Slice(v, T.ZERO, lo), x, T.Slice(v, hi, n))


T.REBUILD_APP.update({
    "band": lambda *xs: T._fold_bin(lambda a, b: intop("&", a, b, ("prim", "u64")), xs),
    "bor": lambda *xs: T._fold_bin(lambda a, b: intop("|", a, b, ("prim", "u64")), xs),
    "bxor": lambda *xs: T._fold_bin(lambda a, b: intop("^", a, b, ("prim", "u64")), xs),
    "shl": lambda a, b: intop("<<", a, b, ("prim", "u128")),
    "shr": lambda a, b: intop(">>", a, b, ("prim", "u64")),
    "div": lambda a, b: intop("/", a, b, ("prim", "u64")),
    "rem": lambda a, b: intop("%", a, b, ("prim", "u64")),
    "sdiv": lambda a, b: intop("/", a, b, ("prim", "i64")),
    "srem": lambda a, b: intop("%", a, b, ("prim", "i64")),
    "pow2": lambda a: Int(1 << a.a[0]) if a.op == "int" and 0 <= a.a[0] < 512 else App("pow2", a),
    "pow": lambda a, b: mkpow(a, b),
    "trunc": lambda a, b: trunc(a, b.a[0]),
})


def mkpow(a, e):
    if e.op == "int" and 0 <= e.a[0] <= 64:
        return T.power(a, e.a[0])
    if a is T.ONE:
        return a
    if a.op == "app" and a.a[0] == "pow":
        return mkpow(a.a[1], T.mul(a.a[2], e))
    # x^(p + c) = x^p * x^c
    t = T._terms(e)
    c = t.get((), 0)
    if c and len(t) > 1:
        rest = T.sub(e, Int(c))
        base = App("pow", a, rest)
        return T.mul(base, T.power(a, c)) if c > 0 else T.mul(base, T.power(T.inv(a), -c))
    return App("pow", a, e)


# ------------------------------------------------------------------ loop summaries
class LoopSummary:
    def __init__(self, it, n, body, st):
        self.I = it
        self.n = n
        self.body = body
        self.st = st

    def run(self):
        I = self.I
        entry = self.st.copy()
        base = entry.path
        whole = set()       # cells modelled as one variable
        M = {}              # cell -> (phi value, [(phi, init)])
        lens = [len(x) for x in I.exitlists]
        pm = len(I.panics)
        for attempt in range(12):
            del I.panics[pm:]
            for x, n in zip(I.exitlists, lens):
                del x[n:]
            i = Fresh("i")
            s = entry.copy()
            for c, (pv, leaves_) in M.items():
                s.cells[c] = pv
            start = dict(s.cells)
            self.body(i, s)
            changed = set()
            ends = [s] if not s.dead else []
            exs = []
            for x, n in zip(I.exitlists, lens):
                for st2, v in x[n:]:
                    exs.append(st2)
            for z in ends + exs:
                for c in entry.cells:
                    if z.cells.get(c, start.get(c)) is not start.get(c):
                        changed.add(c)
            new = changed - set(M)
            redo = bool(new)
            for c in new:
                M[c] = self.mkphi(entry.cells[c], c in whole)
            if not redo and not s.dead:
                for c in list(M):
                    if c not in whole and not self.same_shape(M[c][0], s.cells.get(c, M[c][0])):
                        whole.add(c)
                        M[c] = self.mkphi(entry.cells[c], True)
                        redo = True
                    elif c not in whole:
                        pass
            # refine: whole symbolic structs updated fieldwise
            if not redo and not s.dead:
                for c in list(M):
                    pv = M[c][0]
                    ev = s.cells.get(c, pv)
                    r = self.refine(entry.cells[c], pv, ev)
                    if r is not None:
                        entry.cells[c] = r
                        M[c] = self.mkphi(r, False)
                        redo = True
            if not redo:
                break
        # leaves
        L = []
        for c, (pv, lv) in M.items():
            endv = s.cells.get(c, pv) if not s.dead else pv
            endl = []
            self.zipleaves(pv, endv, endl)
            em = dict(endl)
            for phi, init in lv:
                L.append([phi, init, em.get(phi, phi)])
        sol, at = self.solve(L, i, s)
        n = self.n
        subst_at = {phi: at[phi](i) for phi, _, _ in L}
        # panics raised inside the body
        np = I.panics[pm:]
        del I.panics[pm:]
        for f, why, path in np:
            cond = T.subst(T.AND(*path[len(base):]), subst_at)
            I.panics.append((f, why, base + (_mk("any", (n, Lam([i], cond))),)))
        # exits raised inside the body
        exit_conds = []
        for x, ln in zip(I.exitlists, lens):
            new = x[ln:]
            del x[ln:]
            for st2, v in new:
                rel = st2.path[len(base):]
                cond = T.subst(T.AND(*rel), subst_at) if rel else TRUE
                vv = T.subst(I.reify(v, st2), subst_at)
                exit_conds.append((x, st2, cond, vv, v))
        trip = None
        if n is T.INF and len(exit_conds) == 1 and s is not None:
            trip = self.counted(exit_conds[0][2], i)
        if trip is not None:
            x, st2, cond, vv, v = exit_conds[0]
            e2 = entry.copy()
            for c, (pv, lv) in M.items():
                brk = st2.cells.get(c, pv)
                e2.cells[c] = T.subst(I.reify(brk, st2) if brk.op not in ("ref",) else brk, {phi: at[phi](trip) for phi, _, _ in L} | {i: trip})
            e2.path = base
            val = T.subst(I.reify(v, st2), {phi: at[phi](trip) for phi, _, _ in L} | {i: trip})
            x.append((e2, val))
            self.st.assign(entry)
            self.st.dead = True
            return
        # several exits, one of which is the end of a count (every other exit is only reached while it continues): a bounded loop
        if n is T.INF and len(exit_conds) > 1:
            for j, (x, st2, cond, vv, v) in enumerate(exit_conds):
                trip = self.counted(cond, i)
                if trip is None or trip.tops:
                    continue
                atom, bv = (cond, True) if cond.op != "ite" else (cond.a[0], cond.a[1] is TRUE)
                rest = exit_conds[:j] + exit_conds[j + 1:]
                if atom.op != "lt0" or any(T.restrict(r[2], atom, bv) is not FALSE for r in rest):
                    continue
                anyc = []
                for x1, s1, c1, vv1, v1 in rest:
                    c1 = T.restrict(c1, atom, not bv)
                    lamc = Lam([i], c1)
                    a = _mk("any", (trip, lamc))
                    e2 = entry.copy()
                    for c, (pv, lv) in M.items():
                        w = s1.cells.get(c, pv)
                        w = T.restrict(T.subst(I.reify(w, s1) if w.op != "ref" else w, subst_at), atom, not bv)
                        e2.cells[c] = first_val(trip, lamc, i, w) if c1 is not TRUE else T.subst(w, {i: T.ZERO})
                    e2.path = base + (a,)
                    x1.append((e2, first_val(trip, lamc, i, T.restrict(vv1, atom, not bv))))
                    anyc.append(a)
                fin = {phi: at[phi](trip) for phi, _, _ in L} | {i: trip}
                e2 = entry.copy()
                for c, (pv, lv) in M.items():
                    w = st2.cells.get(c, pv)
                    e2.cells[c] = T.subst(I.reify(w, st2) if w.op != "ref" else w, fin)
                e2.path = base
                for a in anyc:
                    I.assume(e2, T.NOT(a))
                x.append((e2, T.subst(I.reify(v, st2), fin)))
                self.st.assign(entry)
                self.st.dead = True
                return
        out = entry.copy()
        for c, (pv, lv) in M.items():
            out.cells[c] = T.subst(pv, {phi: sol[phi] for phi, _ in lv})
        anyc = []
        prev = FALSE
        for x, st2, cond, vv, v in exit_conds:
            lamc = Lam([i], cond)
            a = _mk("any", (n, lamc)) if cond is not FALSE else FALSE
            e2 = entry.copy()
            for c, (pv, lv) in M.items():
                bv = st2.cells.get(c, pv)
                bv = T.subst(I.reify(bv, st2) if bv.op != "ref" else bv, subst_at)
                e2.cells[c] = first_val(n, lamc, i, bv) if cond is not TRUE else T.subst(bv, {i: T.ZERO})
            e2.path = base + (a,)
            x.append((e2, first_val(n, lamc, i, vv)))
            anyc.append(a)
        self.st.assign(out)
        self.st.path = base
        for a in anyc:
            I.assume(self.st, T.NOT(a))
        if n is T.INF:
            self.st.dead = True

    def counted(self, cond, i):
        """break condition  not (i + a < m)  =>  trip count m - a"""
        c = T.NOT(cond)
        neg = False
        if c.op == "ite":
            # NOT(atom)
            if c.a[1] is FALSE and c.a[2] is TRUE:
                atom, neg = c.a[0], True
            else:
                return None
        else:
            atom = c
        if atom.op == "lt0":
            p = atom.a[0]
            t = T._terms(p)
            ci = t.get(((i, 1),), 0)
            rest = T.sub(p, T.scale(i, ci))
            if i in rest.fv:
                return None
            if not neg and ci == 1:      # continue while i + rest < 0  -> n = -rest
                return T.neg(rest)
            if neg and ci == -1:         # continue while not(-i + rest < 0) = i <= rest -> n = rest+1
                return T.add(rest, T.ONE)
        if atom.op == "eqc" and neg:
            # continue while x != k with x = i + a
            p = T.sub(atom.a[0], atom.a[1])
            return None
        return None

    def mkphi(self, v, whole):
        leaves_ = []

        def go(v, d):
            if not whole and d and v.op in ("adt", "tuple") and len(v.a) > (2 if v.op == "adt" else 0) and (v.op == "tuple" or T.nvariants(v.a[0]) == 1):
                if v.op == "tuple":
                    return T.Tuple(*[go(x, d - 1) for x in v.a])
                return _mk("adt", v.a[:2] + tuple(go(x, d - 1) for x in v.a[2:]))
            if not whole and d and v.op == "arr" and 0 < len(v.a) <= 32:
                return T.Arr([go(x, d - 1) for x in v.a])
            if v.op == "it":
                from . import iters
                cu = iters.cursor(self.I, v, self.st)
                if cu is not None:
                    f = Fresh("phi")
                    leaves_.append((f, cu[1]))
                    return cu[0](f)
            if v.op in ("clo", "fnitem", "ref", "it"):
                return v
            f = Fresh("phi")
            leaves_.append((f, v))
            return f
        r = go(v, 4)
        return (r, leaves_)

    def same_shape(self, a, b):
        if a.op in ("adt", "tuple", "arr") and a.op != "fv":
            if b.op != a.op or len(a.a) != len(b.a):
                return False
            for x, y in zip(a.a, b.a):
                if x.__class__ is N and not self.same_shape(x, y):
                    return False
        return True

    def zipleaves(self, pv, ev, out):
        if pv.op == "fv":
            out.append((pv, ev))
        elif pv.op == "it" and pv.fv:
            j = 1 if pv.a[0] == "range" else 2
            p = pv.a[j] if pv.a[0] in ("range", "skip") else None
            if p is not None and p.op == "fv":
                out.append((p, ev.a[j] if ev.op == "it" and ev.a[0] == pv.a[0] and ev.a[:j] == pv.a[:j] and ev.a[j + 1:] == pv.a[j + 1:] else Top("iterator position")))
        elif pv.op in ("adt", "tuple", "arr") and ev.op == pv.op and len(ev.a) == len(pv.a):
            for x, y in zip(pv.a, ev.a):
                if x.__class__ is N:
                    self.zipleaves(x, y, out)

    def refine(self, init, pv, ev):
        """a symbolic struct was updated field-wise: expand it"""
        if pv.op == "fv":
            if ev.op == "adt" and T.nvariants(ev.a[0]) == 1 and init.op not in ("adt", "tr", "cat", "arr", "seq") and init.op != "top":
                adt = ev.a[0]
                return _mk("adt", ev.a[:2] + tuple(T.field(init, adt, 0, k) for k in range(len(ev.a) - 2)))
            if ev.op == "tuple" and ev.a and init.op not in ("tuple", "top"):
                return _mk("tuple", tuple(T.field(init, None, 0, k) for k in range(len(ev.a))))
            return None
        if pv.op in ("adt", "tuple", "arr") and ev.op == pv.op and init.op == pv.op:
            out = []
            ch = False
            for a, b, c in zip(init.a, pv.a, ev.a):
                if a.__class__ is N:
                    r = self.refine(a, b, c)
                    if r is not None:
                        ch = True
                        out.append(r)
                    else:
                        out.append(a)
                else:
                    out.append(a)
            if ch:
                return _mk(pv.op, tuple(out))
        return None

    # -------------------------------------------------------------- recurrences
    def solve(self, L, i, s):
        """returns final values and value-at-iteration functions per phi"""
        I = self.I
        n = self.n
        phis = {l[0] for l in L}
        sol, at = {}, {}
        pending = []
        for phi, init, end in L:
            end = I.reify(end, s) if has_clo(end) else end
            pending.append([phi, init, T.tr_norm(end)])
        env = {}
        changed = True
        # invariants
        while changed:
            changed = False
            for l in list(pending):
                phi, init, end = l
                if env:
                    end = l[2] = T.subst(end, env)
                if end is phi or end is init:
                    if end is init and init is not phi and end is not phi:
                        pass
                    sol[phi] = init
                    at[phi] = (lambda v: (lambda k: v))(init)
                    env[phi] = init
                    pending.remove(l)
                    changed = True
        # SCC order
        while pending:
            deps = {l[0]: {x for x in l[2].fv if x in phis and x not in sol} for l in pending}
            comp = pick_scc(deps)
            group = [l for l in pending if l[0] in comp]
            pending = [l for l in pending if l[0] not in comp]
            if len(group) == 1:
                phi, init, end = group[0]
                f, a = self.closed(phi, init, end, i)
                sol[phi], at[phi] = f, a
                env2 = {phi: a(i)}
            else:
                ps = [g[0] for g in group]
                init = T.Tuple(*[g[1] for g in group])
                lam = Lam([i] + ps, T.Tuple(*[g[2] for g in group]))
                env2 = {}
                for k, g in enumerate(group):
                    sol[g[0]] = _mk("prj", (k, T.Fold(n, init, lam)))
                    at[g[0]] = (lambda k, init, lam: (lambda j: _mk("prj", (k, T.Fold(j, init, lam)))))(k, init, lam)
                    env2[g[0]] = at[g[0]](i)
            for l in pending:
                l[2] = T.tr_norm(T.subst(l[2], env2))
        return sol, at

    def closed(self, phi, init, end, i):
        n = self.n
        if phi not in end.fv:
            # overwritten every iteration: value of last iteration (or init if none)
            lam = Lam([i], end)
            f = lambda k: _mk("last", (k, init, lam))
            if i not in end.fv:
                g = lambda k: (end if k is not T.ZERO else init) if False else _mk("last", (k, init, lam))
                return g(n), g
            return f(n), f
        # trace
        b, evs = T.tr_split(end)
        if b is phi and evs:
            lam = Lam([i, phi], T.Tuple(*evs))
            f = lambda k: Tr(init, (_mk("lp", (k, lam)),))
            return f(n), f
        # append
        if end.op == "cat" and end.a[0] is phi:
            rest = T.Cat(*end.a[1:])
            if phi not in rest.fv:
                if rest.op == "arr" and len(rest.a) == 1:
                    lam = Lam([i], rest.a[0])
                    f = lambda k: T.Cat(init, T.Seq(k, lam))
                else:
                    lam = Lam([i], rest)
                    f = lambda k: T.Cat(init, _mk("flat", (k, lam)))
                return f(n), f
        if end.op == "ite":
            # conditional append / store: normalise store
            r = self.cond_append(phi, end)
            if r is not None and phi not in r.fv:
                lam = Lam([i], r)
                f = lambda k: T.Cat(init, _mk("flat", (k, lam)))
                return f(n), f
        st = self.as_store(phi, end, i)
        if st is not None:
            ix, x = st
            c0 = T.sub(ix, i)
            if i not in c0.fv and phi not in c0.fv:
                x2 = replace_idx(x, phi, ix, T.idx(init, ix))
                if phi not in x2.fv:
                    j = Fresh("j")
                    lam = Lam([j], T.subst(x2, {i: T.sub(j, c0)}))
                    f = lambda k: mkupd(init, c0, T.add(c0, k), lam)
                    return f(n), f
        # additive
        d = T.sub(end, phi) if end.op == "poly" else None
        if d is not None and phi not in d.fv:
            if i not in d.fv:
                f = lambda k: T.add(init, T.mul(k, d))
            else:
                lam = Lam([i], d)
                f = lambda k: T.add(init, T.Sum(k, lam))
            return f(n), f
        # geometric
        if end.op == "poly" and len(end.a[0]) >= 1:
            if all(any(a is phi and e == 1 for a, e in m) for m, c in end.a[0]):
                q = T.mul(end, T.inv(phi))
                if phi not in q.fv:
                    if i not in q.fv:
                        f = lambda k: T.mul(init, mkpow(q, k))
                        return f(n), f
                    lam = Lam([i], q)
                    f = lambda k: T.mul(init, _mk("prod", (k, lam)))
                    return f(n), f
        # boolean and/or accumulation
        if end.op == "ite" or end is phi:
            t = T.restrict(end, phi, True) if phi.op == "fv" else None
        lam = Lam([i, phi], end)
        f = lambda k: T.Fold(k, init, lam)
        return f(n), f

    def cond_append(self, phi, end):
        if end is phi:
            return T.Arr([])
        if end.op == "cat" and end.a[0] is phi:
            return T.Cat(*end.a[1:])
        if end.op == "ite":
            a = self.cond_append(phi, end.a[1])
            b = self.cond_append(phi, end.a[2])
            if a is None or b is None:
                return None
            return ite(end.a[0], a, b)
        return None

    def as_store(self, phi, end, i):
        if end.op == "store" and end.a[0] is phi:
            return end.a[1], end.a[2]
        if end.op == "ite":
            c, a, b = end.a
            sa = (None, None) if a is phi else self.as_store(phi, a, i)
            sb = (None, None) if b is phi else self.as_store(phi, b, i)
            if sa is None or sb is None:
                return None
            ix = sa[0] or sb[0]
            if ix is None or (sa[0] is not None and sb[0] is not None and sa[0] is not sb[0]):
                return None
            xa = sa[1] if sa[0] is not None else T.idx(phi, ix)
            xb = sb[1] if sb[0] is not None else T.idx(phi, ix)
            return ix, ite(c, xa, xb)
        return None


def first_val(n, lamc, i, vv):
    if i not in vv.fv:
        return vv
    if vv.op == "adt":
        return T.Adt(vv.a[0], vv.a[1], [first_val(n, lamc, i, x) for x in vv.a[2:]])
    if vv.op == "tuple":
        return T.Tuple(*[first_val(n, lamc, i, x) for x in vv.a])
    return _mk("first", (n, lamc, Lam([i], vv)))


def mkupd(base, lo, hi, lam):
    """base with elements lo..hi replaced by lam(index)"""
    if lo is T.ZERO and hi is T.seqlen(base):
        return T.Seq(hi, lam)
    if base.op == "rep" and lo is T.ZERO and False:
        pass
    if lo.op == "int" and hi.op == "int" and base.op == "arr":
        xs = list(base.a)
        for k in range(lo.a[0], min(hi.a[0], len(xs))):
            xs[k] = T.apply_lam(lam, Int(k))
        return T.Arr(xs)
    f = Fresh("i")
    mid = T.Seq(T.sub(hi, lo), Lam([f], T.apply_lam(lam, T.add(f, lo))))
    return T.Cat(T.Slice(base, T.ZERO, lo), mid, T.Slice(base, hi, T.seqlen(base)))


def replace_idx(x, phi, ix, new):
    target = T.idx(phi, ix)
    memo = {}

    def go(y):
        if y is target:
            return new
        if phi not in y.fv:
            return y
        r = memo.get(y)
        if r is None:
            if y.op == "lam":
                fs, b = T._open(y)
                r = Lam(fs, go(b))
            elif y.op == "len" and y.a[0] is phi:
                r = y
            else:
                a = T._sub_tuple(y.a, go)
                r = y if a is y.a else T.rebuild(y.op, a)
            memo[y] = r
        return r
    return go(x)


def pick_scc(deps):
    """a strongly connected component without dependencies outside itself"""
    nodes = list(deps)
    # reachability (small graphs)
    reach = {v: set(deps[v]) for v in nodes}
    ch = True
    while ch:
        ch = False
        for v in nodes:
            new = set(reach[v])
            for w in reach[v]:
                new |= reach.get(w, set())
            if new != reach[v]:
                reach[v] = new
                ch = True
    for v in nodes:
        comp = {w for w in nodes if w == v or (w in reach[v] and v in reach[w])}
        ext = set()
        for w in comp:
            ext |= deps[w]
        if not (ext - comp):
            return comp
    return {nodes[0]}
