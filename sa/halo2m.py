"""Models of field/curve types and of the halo2 circuit-building API."""
import re
from . import terms as T
from .terms import N, _mk, Int, ite, UNIT, TRUE, FALSE, Top, App, Fresh, Lam, Tr, Ev, Str
from . import iters as IT
from .iters import It, SEQ
from .interp import Ref, mkpow
from .models import M as STD, v, vals, setref, die, strip, identv, ident, CtOpt, ct_some, ct_val, exparg, cc, mapseq
from .program import tyname

EXPR = "halo2_proofs::plonk::circuit::Expression"
ASSIGNED = "halo2_proofs::plonk::assigned::Assigned"


# ------------------------------------------------------------------ field-like ADTs
def field_adts(P):
    out = set()
    for tr in ("ff::Field", "group::Group", "pasta_curves::arithmetic::curves::CurveAffine"):
        for im in P.impls_by_trait.get(tr, ()):
            t = im["selfty"]
            if t[0] == "adt":
                out.add(t[1])
    return out


def limbs_int(x):
    if x.op == "arr" and all(e.op == "int" for e in x.a):
        return Int(sum(e.a[0] << (64 * i) for i, e in enumerate(x.a)))
    return App("from_raw", x)


def assign(c, x):
    setref(c, 0, x)
    return T.UNIT


FIELD_METHODS = {
    "zero": lambda c: T.ZERO,
    "one": lambda c: T.ONE,
    "identity": lambda c: T.ZERO,
    "is_zero": lambda c: T.eq(v(c, 0), T.ZERO),
    "is_identity": lambda c: T.eq(v(c, 0), T.ZERO),
    "square": lambda c: T.mul(v(c, 0), v(c, 0)),
    "double": lambda c: T.scale(v(c, 0), 2),
    "cube": lambda c: T.power(v(c, 0), 3),
    "add": lambda c: T.add(v(c, 0), v(c, 1)),
    "sub": lambda c: T.sub(v(c, 0), v(c, 1)),
    "mul": lambda c: T.mul(v(c, 0), v(c, 1)),
    "neg": lambda c: T.neg(v(c, 0)),
    "from_raw": lambda c: limbs_int(v(c, 0)),
    "invert": lambda c: CtOpt(T.inv(v(c, 0)), T.NOT(T.eq(v(c, 0), T.ZERO))),
    "pow": lambda c: mkpow(v(c, 0), exparg(v(c, 1))),
    "pow_vartime": lambda c: mkpow(v(c, 0), exparg(v(c, 1))),
    "to_affine": identv,
    "to_curve": identv,
    "add_assign": lambda c: assign(c, T.add(v(c, 0), v(c, 1))),
    "sub_assign": lambda c: assign(c, T.sub(v(c, 0), v(c, 1))),
    "mul_assign": lambda c: assign(c, T.mul(v(c, 0), v(c, 1))),
    "square_assign": lambda c: assign(c, T.mul(v(c, 0), v(c, 0))),
    "double_assign": lambda c: assign(c, T.scale(v(c, 0), 2)),
    "generator": lambda c: T.Sym("G<" + (tyname(c.retty) if c.retty else "?") + ">"),
}


def install_fields(I, keep=()):
    """treat inherent methods of field and curve types as ring operations"""
    P = I.P
    adts = field_adts(P) - set(keep)
    for fn in P.fns.values():
        if fn.impl is None or fn.trait:
            continue
        im = P.impl_by_id.get(fn.impl)
        if im is None or im.get("trait"):
            continue
        t = im["selfty"]
        if t[0] == "adt" and t[1] in adts:
            nm = fn.id.rsplit("::", 1)[1]
            m = FIELD_METHODS.get(nm)
            if m is not None:
                I.models.setdefault(fn.path, m)
    for ty in ("fp", "fq"):
        for nm, m in FIELD_METHODS.items():
            I.models.setdefault("pasta_curves::fields::%s::%s" % (ty, nm), m)


# ------------------------------------------------------------------ transparent constructors
def transparent_expr():
    info = T.ADT_INFO[EXPR]["variants"]
    for vi, va in enumerate(info):
        if va["name"] == "Constant":
            T.TRANSPARENT[(EXPR, vi)] = lambda fs: fs[0]
        elif va["name"] == "Negated":
            T.TRANSPARENT[(EXPR, vi)] = lambda fs: T.neg(fs[0])
        elif va["name"] == "Sum":
            T.TRANSPARENT[(EXPR, vi)] = lambda fs: T.add(fs[0], fs[1])
        elif va["name"] in ("Product", "Scaled"):
            T.TRANSPARENT[(EXPR, vi)] = lambda fs: T.mul(fs[0], fs[1])
        elif va["name"] == "Selector":
            T.TRANSPARENT[(EXPR, vi)] = lambda fs: q(fs[0], T.ZERO)
        elif va["name"] == "Challenge":
            T.TRANSPARENT[(EXPR, vi)] = lambda fs: chal(fs[0])
    info = T.ADT_INFO.get(ASSIGNED)
    if info:
        for vi, va in enumerate(info["variants"]):
            if va["name"] == "Zero":
                T.TRANSPARENT[(ASSIGNED, vi)] = lambda fs: T.ZERO
            elif va["name"] == "Trivial":
                T.TRANSPARENT[(ASSIGNED, vi)] = lambda fs: fs[0]
            elif va["name"] == "Rational":
                T.TRANSPARENT[(ASSIGNED, vi)] = lambda fs: T.mul(fs[0], T.inv(fs[1]))


def q(col, rot):
    return App("q", col, rot)


def chal(c):
    return App("chal", c)


def rotv(c, i):
    r = v(c, i)
    if r.op == "adt":
        return r.a[2]
    return T.field(r, "halo2_proofs::poly::Rotation", 0, 0)


def alloc(kind):
    def f(c):
        ph = ""
        if c.name in ("advice_column_in", "challenge_usable_after"):
            p = v(c, 1)
            ph = ":" + (p.a[0].rsplit("::", 1)[1] if p.op == "adt" else T.show(p, 3))
        x = Fresh("col")
        cs = T.tr_norm(v(c, 0))
        setref(c, 0, Tr(cs, (Ev("alloc", Str(kind + ph), x),)))
        return x
    return f


def record(c, i, ev):
    x = T.tr_norm(v(c, i))
    setref(c, i, Tr(x, (ev,)))


CS = "<halo2_proofs::plonk::circuit::ConstraintSystem<F>>::"
VC = "<halo2_proofs::plonk::circuit::VirtualCells<F>>::"
RG = "<halo2_proofs::circuit::Region<F>>::"
LY = "halo2_proofs::circuit::Layouter::"
AC = "<halo2_proofs::circuit::AssignedCell<V,F>>::"
VAL = "<halo2_proofs::circuit::value::Value<"
H = {}


def model(*keys):
    def deco(f):
        for k in keys:
            H[k] = f
        return f
    return deco


for nm, kind in (("advice_column", "advice"), ("advice_column_in", "advice"), ("fixed_column", "fixed"), ("instance_column", "instance"),
                 ("selector", "selector"), ("complex_selector", "complex_selector"), ("lookup_table_column", "table"), ("challenge_usable_after", "challenge")):
    H[CS + nm] = alloc(kind)


def polyval(x):
    """Constraint value -> polynomial"""
    if x.op == "tuple" and len(x.a) == 2:
        return x.a[1]
    if x.op == "adt" and x.a[0].endswith("::Constraint"):
        return x.a[3]
    return x


@model(CS + "create_gate")
def _(c):
    I = c.it
    cell = I.alloc(c.st, T.Sym("meta"))
    r = I.call_clo(c.args[2], [Ref(cell)], c.st)
    if c.st.dead:
        return UNIT
    ps = IT.collect(I, IT.as_it(I, r, c.st), c.st)
    ps = mapseq(ps, polyval)
    record(c, 0, Ev("gate", I.reify(ps, c.st)))
    return UNIT


@model(CS + "lookup", CS + "lookup_any")
def _(c):
    I = c.it
    cell = I.alloc(c.st, T.Sym("meta"))
    r = I.call_clo(c.args[2], [Ref(cell)], c.st)
    if c.st.dead:
        return UNIT
    r = mapseq(I.reify(r, c.st), lambda p: T.Tuple(T.field(p, None, 0, 0), q(T.field(p, None, 0, 1), T.ZERO)) if c.name == "lookup" else p)
    record(c, 0, Ev("lookup", r))
    return UNIT


@model(CS + "enable_equality")
def _(c):
    record(c, 0, Ev("equality", v(c, 1)))
    return UNIT


@model(CS + "enable_constant")
def _(c):
    record(c, 0, Ev("constant", v(c, 1)))
    return UNIT


for nm in ("annotate_lookup_column", "annotate_lookup_any_column"):
    H[CS + nm] = lambda c: UNIT


@model(CS + "set_minimum_degree")
def _(c):
    record(c, 0, Ev("mindegree", v(c, 1)))
    return UNIT


for nm in ("query_advice", "query_fixed", "query_instance", "query_any"):
    H[VC + nm] = lambda c: q(v(c, 1), rotv(c, 2))
H[VC + "query_selector"] = lambda c: q(v(c, 1), T.ZERO)
H[VC + "query_challenge"] = lambda c: chal(v(c, 1))
H["<halo2_proofs::plonk::circuit::Expression<F>>::square"] = lambda c: T.mul(v(c, 0), v(c, 0))


@model("<halo2_proofs::plonk::circuit::Constraints<F,C,Iter>>::with_selector")
def _(c):
    I = c.it
    sel = v(c, 0)
    xs = IT.collect(I, IT.as_it(I, c.args[1], c.st), c.st)
    return mapseq(xs, lambda p: T.mul(sel, polyval(p)))


H["<halo2_proofs::plonk::circuit::Constraints<F,C,Iter> as core::iter::traits::collect::IntoIterator>::into_iter"] = lambda c: SEQ(v(c, 0))
for k in ("<halo2_proofs::plonk::circuit::Constraint<F> as core::convert::From<(&'static str, plonk::circuit::Expression<F>)>>::from",
          "<halo2_proofs::plonk::circuit::Constraint<F> as core::convert::From<halo2_proofs::plonk::circuit::Expression<F>>>::from"):
    H[k] = lambda c: polyval(v(c, 0))
H["<alloc::vec::Vec<halo2_proofs::plonk::circuit::Constraint<F>,alloc::alloc::Global> as core::convert::From<halo2_proofs::plonk::circuit::Expression<F>>>::from"] = lambda c: T.Arr([v(c, 0)])


# regions -------------------------------------------------------------
def acell(col, off, val):
    return App("acell", col, off, val)


def cellval(x):
    if x.op == "app" and x.a[0] == "acell":
        return x.a[3]
    if x.op == "ite":
        return ite(x.a[0], cellval(x.a[1]), cellval(x.a[2]))
    return App("val", x)


@model(LY + "assign_region", LY + "assign_table")
def _(c):
    I = c.it
    cell = I.alloc(c.st, T.Sym("region"))
    r = I.call_clo(c.args[2], [Ref(cell)], c.st)
    if c.st.dead:
        return UNIT
    tr = T.tr_norm(I.deref(c.st, Ref(cell)))
    record(c, 0, Ev("region" if c.name == "assign_region" else "table", tr))
    return r


H[LY + "namespace"] = ident
H[LY + "push_namespace"] = H[LY + "pop_namespace"] = lambda c: UNIT
H[LY + "get_root"] = ident
H[LY + "get_challenge"] = lambda c: chal(v(c, 1))


@model(LY + "constrain_instance")
def _(c):
    record(c, 0, Ev("instance", v(c, 1), v(c, 2), v(c, 3)))
    return T.Ok(UNIT)


def tocall(c, i):
    return c.it.deref(c.st, c.it.call_clo(c.args[i], [], c.st))


@model(RG + "assign_advice", RG + "assign_fixed", "<halo2_proofs::circuit::Table<F>>::assign_cell")
def _(c):
    col, off = v(c, 2), v(c, 3)
    x = tocall(c, 4)
    if c.st.dead:
        return UNIT
    record(c, 0, Ev("assign", col, off, x))
    return T.Ok(acell(col, off, x) if c.name != "assign_cell" else UNIT)


@model(RG + "assign_advice_from_constant")
def _(c):
    col, off, k = v(c, 2), v(c, 3), v(c, 4)
    record(c, 0, Ev("assign", col, off, k))
    record(c, 0, Ev("constconstraint", acell(col, off, k), k))
    return T.Ok(acell(col, off, k))


@model(RG + "assign_advice_from_instance")
def _(c):
    # (self, annotation, instance, row, advice, offset)
    ins, row, col, off = v(c, 2), v(c, 3), v(c, 4), v(c, 5)
    x = App("inst", ins, row)
    record(c, 0, Ev("assign", col, off, x))
    record(c, 0, Ev("instconstraint", acell(col, off, x), ins, row))
    return T.Ok(acell(col, off, x))


@model(RG + "constrain_constant")
def _(c):
    record(c, 0, Ev("constconstraint", v(c, 1), v(c, 2)))
    return T.Ok(UNIT)


@model(RG + "constrain_equal")
def _(c):
    a, b = v(c, 1), v(c, 2)
    record(c, 0, Ev("eqconstraint", App("pair", *sorted((a, b), key=lambda n: n.id))))
    return T.Ok(UNIT)


T.REBUILD_APP["pair"] = lambda a, b: App("pair", *sorted((a, b), key=lambda n: n.id))
H[RG + "name_column"] = lambda c: UNIT


@model(RG + "enable_selector")
def _(c):
    record(c, 0, Ev("enable", v(c, 2), v(c, 3)))
    return T.Ok(UNIT)


@model("<halo2_proofs::plonk::circuit::Selector>::enable")
def _(c):
    record(c, 1, Ev("enable", v(c, 0), v(c, 2)))
    return T.Ok(UNIT)


H[AC + "value"] = H[AC + "value_field"] = lambda c: cellval(v(c, 0))
H[AC + "cell"] = identv
H["<halo2_proofs::circuit::AssignedCell<halo2_proofs::plonk::assigned::Assigned<F>,F>>::evaluate"] = identv


@model(AC + "copy_advice")
def _(c):
    # (self, annotation, region, column, offset)
    x, col, off = v(c, 0), v(c, 3), v(c, 4)
    val = cellval(x)
    record(c, 2, Ev("assign", col, off, val))
    a = acell(col, off, val)
    record(c, 2, Ev("eqconstraint", App("pair", *sorted((a, x), key=lambda n: n.id))))
    return T.Ok(a)


# Value ---------------------------------------------------------------
def install_value(P):
    for p in P.by_path:
        if "circuit::value::Value<" in p and "{" not in p:
            nm = p.rsplit("::", 1)[1]
            if p.startswith("<halo2_proofs::circuit::value::Value<") and " as " not in p.split(">>::")[0]:
                if nm in ("known", "cloned", "copied", "as_ref", "into_field", "to_field", "evaluate", "transpose_array", "transpose_vec", "assign"):
                    H[p] = identv if nm != "assign" else (lambda c: T.Ok(v(c, 0)))
                elif nm == "unknown":
                    H[p] = lambda c: T.Sym("unknown")
                elif nm in ("map", "and_then"):
                    H[p] = lambda c: c.it.call_clo(c.args[1], [v(c, 0)], c.st)
                elif nm == "zip":
                    H[p] = lambda c: T.Tuple(v(c, 0), v(c, 1))
                elif nm == "unzip":
                    H[p] = lambda c: T.Tuple(T.field(v(c, 0), None, 0, 0), T.field(v(c, 0), None, 0, 1))
                elif nm == "square":
                    H[p] = lambda c: T.power(v(c, 0), 2)
                elif nm == "cube":
                    H[p] = lambda c: T.power(v(c, 0), 3)
                elif nm == "double":
                    H[p] = lambda c: T.scale(v(c, 0), 2)
                elif nm == "invert":
                    H[p] = lambda c: T.inv(v(c, 0))
                elif nm in ("assert_if_known",):
                    H[p] = lambda c: UNIT
                elif nm == "error_if_known_and":
                    H[p] = lambda c: T.Ok(UNIT)
                elif nm == "as_mut":
                    H[p] = ident
                elif nm == "is_none":
                    H[p] = lambda c: FALSE
            elif p.endswith("::from") and "From<" in p:
                H[p] = identv
        if p.startswith("<halo2_proofs::plonk::assigned::Assigned<F>>::"):
            nm = p.rsplit("::", 1)[1]
            if nm == "invert":
                H[p] = lambda c: T.inv(v(c, 0))
            elif nm == "evaluate":
                H[p] = identv
            elif nm in FIELD_METHODS:
                H[p] = FIELD_METHODS[nm]
        if "plonk::circuit::Column<" in p and p.endswith("::from") and "From<" in p:
            H[p] = identv
        if p.endswith(" as core::convert::From<F>>::from") and "assigned::Assigned" in p:
            H[p] = identv
        if "From<&F>>::from" in p and "assigned::Assigned" in p or "From<(F, F)>>::from" in p and "assigned::Assigned" in p:
            H[p] = identv if "(F, F)" not in p else (lambda c: T.mul(T.field(v(c, 0), None, 0, 0), T.inv(T.field(v(c, 0), None, 0, 1))))
    H["<halo2_proofs::plonk::circuit::TableColumn>::inner"] = identv


def circuit_models(P):
    install_value(P)
    transparent_expr()
    m = dict(STD)
    m.update(H)
    return m


# ------------------------------------------------------------------ normalised circuit description
def config_names(cfg, prefix="cfg"):
    """column leaf -> name by position in the configuration value"""
    names = {}

    def go(x, p):
        if x.op == "fv" and x.a[0] == "col":
            if x not in names or (len(p), p) < (len(names[x]), names[x]):
                names[x] = p
        elif x.op == "adt":
            info = T.ADT_INFO.get(x.a[0])
            for i, y in enumerate(x.a[2:]):
                nm = info["variants"][x.a[1]]["fields"][i][0] if info else str(i)
                go(y, p + "." + nm)
        elif x.op in ("tuple", "arr"):
            for i, y in enumerate(x.a):
                go(y, p + "." + str(i))
        elif x.op == "app":
            for i, y in enumerate(x.a[1:]):
                if y.__class__ is N:
                    go(y, p + "/" + str(x.a[0]) + str(i))
        elif x.op == "ite":
            go(x.a[1], p)
            go(x.a[2], p)
    go(cfg, prefix)
    return names


def flatten_events(tr):
    """list of events of a trace in order, (cond-free); nested loops kept as lp nodes"""
    base, evs = T.tr_split(tr)
    return list(evs)
