"""Per-function semantic summaries: (return value, final value of every &mut argument, panic conditions)
as closed normal-form terms over the function's parameters."""
import signal, sys, traceback
from . import terms as T, models, halo2m
from .terms import N, _mk
from .interp import Interp, State, Ref, Stuck

sys.setrecursionlimit(40000)
OPAQUE_SIZE = 50
INLINE = {"halo2_proofs::arithmetic::parallelize"}     # higher-order: its effect is its callback's
CIRC = ("ckb_bf_base", "halo2_gadgets")
SKIP_TRAITS = {"core::fmt::Debug", "core::fmt::Display", "core::fmt::LowerHex", "core::fmt::UpperHex", "core::error::Error", "std::error::Error"}


class Budget(Exception):
    pass


def _alarm(*a):
    raise Budget()


def is_fn(P, fn):
    if "{closure" in fn.path or fn.kind not in ("Fn", "AssocFn") or fn.crate.startswith(("ckb_std", "build_script")):
        return False
    im = P.impl_by_id.get(fn.impl) if fn.impl else None
    if im is not None and im.get("trait") == "core::fmt::Debug" and fn.crate.startswith(("halo2_proofs", "halo2curves")) and "/dev" not in fn.loc:
        return True     # the key digest hashes Debug output
    return not (im is not None and im.get("trait") in SKIP_TRAITS)


def is_const(P, fn):
    return fn.kind in ("Const", "AssocConst") and not fn.crate.startswith(("ckb_std", "build_script")) and "{closure" not in fn.path and "{impl" not in fn.path.rsplit("::", 1)[-1]


def is_item(P, fn):
    return is_fn(P, fn) or is_const(P, fn)


def is_pub(fn):
    """callable from outside its crate"""
    return fn.vis == "pub" or fn.path.endswith("::main") or fn.path.endswith("::program_entry")


def default_opaque(P):
    """frozen at reference time: large functions are summarised once and kept symbolic in their callers"""
    big = [f for f in P.fns.values() if is_fn(P, f) and len(f.exprs) > OPAQUE_SIZE and f.path not in INLINE]
    return {"pub": sorted(f.path for f in big if is_pub(f)), "priv": sorted(f.path for f in big if not is_pub(f))}


class Summarizer:
    def __init__(self, P, opaque):
        self.P = P
        self.opaque_pub = frozenset(opaque["pub"])
        self.opaque_all = self.opaque_pub | frozenset(opaque["priv"])
        self.fadts = halo2m.field_adts(P)
        self.curves = set()
        for tr in ("group::Group", "pasta_curves::arithmetic::curves::CurveAffine"):
            for im in P.impls_by_trait.get(tr, ()):
                if im["selfty"][0] == "adt":
                    self.curves.add(im["selfty"][1])
        self._m = {}
        self.stats = {"functions": 0, "exprs": 0}

    def mode(self, fn):
        c = fn.crate.split(".")[0]
        if c in CIRC:
            return "circ"
        if c == "halo2curves":
            return "ring"
        return "std"

    def interp(self, fn, level):
        P = self.P
        mode = self.mode(fn)
        T.TRANSPARENT.clear()
        T.FIXLEN.clear()
        opq = self.opaque_all if level == "A" else self.opaque_pub
        if mode == "circ":
            I = Interp(P, halo2m.circuit_models(P), opaque=opq)
            halo2m.install_fields(I)
            I.opts["history"] = False
        else:
            I = Interp(P, dict(models.M), opaque=opq)
            if mode == "ring":
                keep = set()
                im = P.impl_by_id.get(fn.impl) if fn.impl else None
                own = im["selfty"] if im is not None else None
                while own is not None and own[0] == "ref":
                    own = own[2]
                if own is not None and own[0] == "adt":
                    keep.add(own[1])
                    if own[1] in self.curves:
                        keep |= self.curves
                halo2m.install_fields(I, keep)
            else:
                halo2m.install_fields(I)
        return I

    def handle(self, fn, t):
        """a by-value handle on a circuit being built: what is recorded through it outlives the call"""
        if self.mode(fn) != "circ":
            return False
        if t[0] == "param":
            return "Layouter" in str(t[1]) or t[1] == "L"
        return t[0] == "adt" and t[1] in ("halo2_proofs::circuit::Region", "halo2_proofs::circuit::Table", "halo2_proofs::circuit::layouter::Namespace", "halo2_proofs::circuit::NamespacedLayouter")

    def summary(self, fn, timeout=40, unroll=None, level="A"):
        """-> (status, {name: N}, info)"""
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(timeout)
        try:
            I = self.interp(fn, level)
            if unroll:
                I.opts["unroll"] = unroll
            st = State()
            st.cells[0] = T.Sym("$world")
            args = []
            for j, p in enumerate(fn.params):
                t = self.P.ty(fn.crate, p["t"])
                s = T.Sym("$%d" % j)
                if t[0] == "ref" and t[1] == 1 or self.handle(fn, t):
                    args.append(Ref(I.alloc(st, s)))
                else:
                    args.append(s)
                I.note_len(args[-1], t, st)
            v, st = I.run(fn, args, {}, st)
            out = {}
            if st.dead:
                out["ret"] = _mk("diverge", ())
            else:
                out["ret"] = T.tr_norm(I.reify(I.deref(st, v), st))
            for j, a in enumerate(args):
                if a.op == "ref":
                    out["mut%d" % j] = T.tr_norm(I.reify(I.deref(st, a), st))
            w = T.tr_norm(I.reify(st.cells.get(0, T.Sym("$world")), st)) if not st.dead else T.Sym("$world")
            if w.op != "sym":
                out["world"] = w
            if self.mode(fn) == "circ":
                ren = canon_cols(out)
                for k in list(out):
                    x = T.subst(out[k], ren) if ren else out[k]
                    out[k] = T.bagify(x) if k != "ret" else x
            out = {k: T.canon(T.renorm(x)) for k, x in out.items()}
            pc, uw = [], []
            for _, why, path in I.panics:
                c = T.AND(*path)
                if c is T.FALSE or c.fv or c.tops:
                    continue
                (uw if why in ("unwrap", "ctunwrap") else pc).append(T.renorm(c))
            out["panics"] = _mk("set", (tuple(sorted(set(pc), key=lambda n: n.id)),))
            out["unwraps"] = _mk("set", (tuple(sorted(set(uw), key=lambda n: n.id)),))
            return "ok", out, I
        except Budget:
            return "timeout", None, None
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            return "error:%s %s" % (type(e).__name__, " ".join("%s:%d" % (f.name, f.lineno) for f in tb[-4:])), None, None
        finally:
            T.FIXLEN.clear()
            signal.alarm(0)

    def const(self, fn):
        pass


def canon_cols(out):
    """stable names for columns/selectors/challenges allocated inside: path in the returned configuration, else allocation order"""
    names = halo2m.config_names(out["ret"])
    k = 0
    for n, v in out.items():
        if n == "ret":
            continue
        for e in ops_in_order(v):
            x = e.a[2]
            if x.op == "fv" and x not in names:
                names[x] = "col%d" % k
                k += 1
    return {x: T.Sym(n) for x, n in names.items()}


def ops_in_order(v):
    out = []

    def go(evs):
        for e in evs:
            if e.op == "ev" and e.a[0] == "alloc":
                out.append(e)
            elif e.op == "br":
                for _, leaf in T._tree_paths(e.a[0], (), []):
                    go(leaf.a)
    go(T.tr_split(v)[1])
    return out


def find_top(v, seen=None):
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "top":
            return x
        for y in x.a:
            if y.__class__ is N:
                stack.append(y)
            elif y.__class__ is tuple:
                stack.extend(z for z in T._walk_tuple(y) if z.__class__ is N)
    return None


def ops_in(v, ops):
    out = []
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ops:
            out.append(x)
        for y in x.a:
            if y.__class__ is N:
                stack.append(y)
            elif y.__class__ is tuple:
                stack.extend(z for z in T._walk_tuple(y) if z.__class__ is N)
    return out
