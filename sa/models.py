"""Models of external (std, ff, group, subtle, ...) callees, keyed by def path."""
from . import terms as T
from .terms import N, _mk, Int, ite, UNIT, TRUE, FALSE, Top, App, Fresh, Lam, Tr, Ev
from . import iters as IT
from .iters import It, SEQ
from .interp import Ref, binop, intop, mkpow, trunc, cast, bits, signed, wrap_const
from .program import tyname

OPT, RES = T.OPT, T.RES
CF = "core::ops::control_flow::ControlFlow"
M = {}


def model(*keys):
    def deco(f):
        for k in keys:
            M[k] = f
        return f
    return deco


def v(c, i):
    return c.it.deref(c.st, c.args[i])


def vals(c):
    return [c.it.deref(c.st, a) for a in c.args]


def setref(c, i, x):
    r = c.args[i]
    if r.op == "ref":
        c.it.write_ref(c.st, r, x)


def die(c, why):
    c.it.panics.append((c.act.fn.path, why, c.st.path))
    c.st.dead = True
    return UNIT


ident = lambda c: c.args[0]
identv = lambda c: v(c, 0)


def strip(t):
    while t[0] == "ref":
        t = t[2]
    return t


# ------------------------------------------------------------------ panics / fmt / log
for k in ("core::panicking::panic_fmt core::panicking::panic core::panicking::assert_failed core::panicking::unimplemented_default_msg "
          "core::panicking::unreachable_default_msg core::panicking::todo_default_msg core::intrinsics::unreachable core::panicking::unreachable_display "
          "core::panicking::panic_display core::panicking::panic_explicit core::panicking::assert_failed_inner core::option::expect_failed "
          "core::panicking::panic_nounwind core::option::unwrap_failed std::process::exit core::hint::unreachable_unchecked").split():
    M[k] = (lambda k: lambda c: die(c, k))(k)

for k in ("core::fmt::rt::new_display core::fmt::rt::new_debug core::fmt::rt::new_lower_hex core::fmt::new core::fmt::from_str core::fmt::from_str_nonconst alloc::fmt::format "
          "core::fmt::rt::new_upper_hex std::io::stdio::_print std::io::stdio::_eprint core::fmt::rt::new core::fmt::rt::none core::fmt::new_v1 core::fmt::new_const "
          "log::__private_api::loc log::__private_api::log log::max_level env_logger::logger::init").split():
    M[k] = lambda c: _mk("anno", ())
M["core::hint::must_use"] = ident
M["core::hint::black_box"] = ident


# ------------------------------------------------------------------ Try
@model("core::ops::try_trait::Try::branch")
def _(c):
    x = v(c, 0)
    t = strip(c.targs[0])
    adt = t[1] if t[0] == "adt" else RES
    okv = 1 if adt == OPT else 0
    if adt not in (OPT, RES):
        return Top("try on " + str(adt))
    cont = T.Adt(CF, 0, [T.payload(x, adt, okv, 0)]) if T.is_variant(x, adt, okv) is not FALSE else None
    brk = T.Adt(CF, 1, [T.NoneV() if adt == OPT else T.Err(T.payload(x, adt, 1, 0))]) if T.is_variant(x, adt, okv) is not TRUE else None
    if cont is None:
        return brk
    if brk is None:
        return cont
    return ite(T.is_variant(x, adt, okv), cont, brk)


@model("core::ops::try_trait::FromResidual::from_residual")
def _(c):
    x = v(c, 0)
    t, rt = strip(c.targs[0]), strip(c.targs[1])
    if t[0] == "adt" and t[1] == OPT:
        return T.NoneV()
    e = T.payload(x, RES, 1, 0)
    return T.Err(conv(c, e, rt[2][1] if len(rt) > 2 and len(rt[2]) > 1 else None, t[2][1]))


def is_fieldlike(t):
    return t[0] in ("param", "alias") or t[0] == "adt" and (t[1].rsplit("::", 1)[1] in ("Fr", "Fq", "Fp", "Assigned", "Value", "Fq2", "Fq6", "Fq12", "Expression"))


def conv(c, x, ft, tt):
    """From conversion x: ft -> tt"""
    if ft is None or tt is None:
        return x
    if ft == tt:
        return x
    if ft[0] == "prim" and tt[0] == "prim":
        return x
    if ft[0] == "prim" and ft[1] != "str" and is_fieldlike(tt):
        if ft[1] == "bool":
            return ite(c.it.tobool(x), T.ONE, T.ZERO)
        if not (tt[0] == "adt" and ("From", tt[1]) in c.it.opts.get("open_from", ())):
            return x
    P = c.it.P
    im, m = P.find_impl("core::convert::From", (tt, ft))
    if im is not None:
        it = im["itemmap"].get("from")
        fn = P.fns.get(it[1]) if it else None
        if fn is not None:
            mm = c.it.models.get(fn.path)
            if mm is not None:
                c2 = type(c)()
                for s in c.__slots__:
                    if hasattr(c, s):
                        setattr(c2, s, getattr(c, s))
                c2.args = [x]
                return mm(c2)
            if fn.path in c.it.opaque or c.it.is_opaque(fn):
                return App("from " + tyname(tt), x)
            return c.it.call_fn(fn, [x], m, c.st)
    # conversions between containers are transparent
    cont = ("alloc::vec::Vec", "alloc::boxed::Box", "alloc::string::String", "alloc::sync::Arc", "alloc::rc::Rc", "alloc::borrow::Cow")
    if tt[0] == "adt" and tt[1] in cont or tt[0] in ("slice", "array"):
        return x
    if tt[0] == "adt" and tt[1] == OPT:
        if ft[0] == "adt" and ft[1] == "subtle::CtOption":
            return ite(ct_some(x), T.Some(ct_val(x)), T.NoneV())
        if ft[0] == "adt" and ft[1] != OPT or ft[0] != "adt":
            return T.Some(x)
    if ft[0] == "adt" and ft[1] == "subtle::Choice" and tt == ("prim", "bool"):
        return c.it.tobool(x)
    if tt[0] == "adt" and tt[1] == "subtle::Choice":
        return tochoice(x)
    if tt[0] in ("param", "alias") or is_fieldlike(tt):
        return x
    if tt[0] == "adt" and tt[1].endswith("BTreeMap"):
        return x
    return App("from " + tyname(tt), x)


def tochoice(x):
    if x.op == "int":
        return T.Bool(x.a[0] & 1)
    if x.op == "ite" and x.a[1].op == "int" and x.a[2].op == "int":
        return ite(x.a[0], T.Bool(x.a[1].a[0] & 1), T.Bool(x.a[2].a[0] & 1))
    if x.op in ("bool", "ite") or x.op in T._BOOLOPS:
        return x
    return T.eq(x, T.ONE)


@model("core::convert::Into::into", "core::convert::From::from", "core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def _(c):
    x = v(c, 0)
    nm = c.name
    if nm == "into" or nm == "try_into":
        ft, tt = c.targs[0], c.targs[1]
    else:
        tt, ft = c.targs[0], c.targs[1]
    if ft[0] == "ref" and c.args[0].op == "ref" and not nm.startswith("try"):
        # a wrapper around a mutable borrow keeps the borrow
        im, m = c.it.P.find_impl("core::convert::From", (tt, ft))
        it = im["itemmap"].get("from") if im is not None else None
        fn = c.it.P.fns.get(it[1]) if it else None
        if fn is not None and c.it.models.get(fn.path) is None:
            return c.it.call_fn(fn, [c.args[0]], m, c.st)
    ft, tt = strip(ft) if ft[0] == "ref" and tt[0] != "ref" else ft, tt
    if nm.startswith("try"):
        st_, tt_ = strip(ft), strip(tt)
        if tt_[0] == "array" or tt_[0] == "adt" and tt_[1].endswith("GenericArray"):
            n = c.it.cst(tt_[2], None, c.st) if tt_[0] == "array" and tt_[2][0] == "c" else None
            if n is not None and x.op not in ("arr",) and n.a[0] <= 64 and T.seqlen(x).op != "int" and c.it.opts.get("expand_arrays"):
                return T.Ok(T.Arr([T.idx(x, Int(i)) for i in range(n.a[0])]))
            if n is not None and n.op == "int" and T.seqlen(x).op != "int":
                return T.Ok(T.Slice(x, T.ZERO, n))
            return T.Ok(x)
        if st_[0] == "prim" and tt_[0] == "prim":
            if x.op == "int":
                w = wrap_const(x.a[0], tt_)
                return T.Ok(x) if w == x.a[0] else T.Err(Top("range"))
            if bits(tt_) > bits(st_) or (bits(tt_) == bits(st_) and signed(tt_) == signed(st_)):
                return T.Ok(x)
            return ite(_mk("bcond", (App("fits " + tt_[1], x),)), T.Ok(x), T.Err(_mk("adt", ("core::num::error::TryFromIntError", 0))))
        P = c.it.P
        im, m = P.find_impl("core::convert::TryFrom", (tt, ft))
        if im is not None:
            it = im["itemmap"].get("try_from")
            fn = P.fns.get(it[1]) if it else None
            if fn is not None and fn.path not in c.it.opaque:
                return c.it.call_fn(fn, [x], m, c.st)
        return App("try_from " + tyname(tt), x)
    return conv(c, x, ft, tt)


# ------------------------------------------------------------------ identity-like
for k in ("core::clone::Clone::clone core::ops::deref::Deref::deref core::convert::AsRef::as_ref core::borrow::Borrow::borrow alloc::borrow::ToOwned::to_owned "
          "alloc::slice::to_vec alloc::vec::as_slice alloc::string::as_str core::str::as_bytes alloc::string::as_bytes alloc::string::into_bytes "
          "alloc::boxed::new alloc::sync::new alloc::rc::new alloc::boxed::box_assume_init_into_vec_unsafe alloc::slice::into_vec core::iter::traits::iterator::Iterator::cloned "
          "core::iter::traits::iterator::Iterator::copied core::option::cloned core::option::copied core::option::as_ref core::option::as_deref core::result::as_ref "
          "core::array::as_slice generic_array::as_slice core::iter::traits::iterator::Iterator::peekable core::iter::traits::iterator::Iterator::fuse "
          "alloc::vec::into_boxed_slice group::Curve::to_affine group::prime::PrimeCurveAffine::to_curve group::cofactor::CofactorCurveAffine::to_curve "
          "alloc::boxed::into_vec alloc::vec::leak core::mem::take_value bitvec::slice::api::iter bitvec::slice::iter::by_vals core::slice::from_ref "
          "core::borrow::BorrowMut::borrow_mut_v alloc::string::ToString::to_string alloc::string::from alloc::boxed::into_inner core::slice::to_owned").split():
    M[k] = identv

for k in ("core::ops::deref::DerefMut::deref_mut core::convert::AsMut::as_mut core::slice::as_mut_slice alloc::vec::as_mut_slice core::borrow::BorrowMut::borrow_mut "
          "core::iter::traits::iterator::Iterator::by_ref core::option::as_mut_id core::cell::borrow_mut").split():
    M[k] = ident


@model("core::clone::Clone::clone")
def _(c):
    x = c.args[0]
    # cloning an &mut place yields its value
    return c.it.deref(c.st, x)


@model("core::option::as_mut", "core::option::as_deref_mut")
def _(c):
    r = c.args[0]
    if r.op != "ref":
        return r
    x = c.it.deref(c.st, r)
    return ite(T.is_variant(x, OPT, 1), T.Some(Ref(r.a[0], r.a[1] + (("f", OPT, 1, 0),))), T.NoneV())


@model("alloc::boxed::new_uninit")
def _(c):
    return _mk("uninitbox", ())


@model("alloc::intrinsics::write_box_via_move")
def _(c):
    return v(c, 1)


@model("core::mem::swap")
def _(c):
    a, b = v(c, 0), v(c, 1)
    setref(c, 0, b)
    setref(c, 1, a)
    return UNIT


@model("core::mem::replace")
def _(c):
    a = v(c, 0)
    setref(c, 0, c.args[1])
    return a


@model("core::mem::take", "core::option::take")
def _(c):
    a = v(c, 0)
    setref(c, 0, T.NoneV() if c.key == "core::option::take" else T.Arr([]))
    return a


M["core::mem::drop"] = lambda c: UNIT


@model("core::mem::size_of")
def _(c):
    t = c.targs[0]
    if t[0] == "prim":
        return Int(bits(t) // 8)
    return App("size_of<" + tyname(t) + ">")


@model("core::default::Default::default")
def _(c):
    t = c.targs[0]
    if t[0] == "prim":
        return FALSE if t[1] == "bool" else T.ZERO
    if t[0] == "tuple":
        out = []
        for x in t[1]:
            c2 = c
            old = c.targs
            c.targs = (x,)
            out.append(c.it.models[c.key](c))
            c.targs = old
        if any(o is NotImplemented for o in out):
            return NotImplemented
        return T.Tuple(*out)
    if t[0] == "adt":
        if t[1] in ("alloc::vec::Vec", "alloc::string::String"):
            return T.Arr([])
        if t[1] == OPT:
            return T.NoneV()
        if t[1].endswith(("BTreeMap", "HashMap", "BTreeSet", "HashSet")):
            return EMPTYMAP
        if t[1] == "core::marker::PhantomData":
            return T.Adt(t[1], 0, [])
        if is_fieldlike(t):
            return T.ZERO
    if t[0] == "array":
        n = c.it.cst(t[2], None, c.st)
        old = c.targs
        c.targs = (t[1],)
        x = c.it.models[c.key](c)
        c.targs = old
        if x is NotImplemented:
            return x
        return T.Rep(x, n)
    if t[0] in ("param", "alias"):
        nm = tyname(t)
        return App("default<" + nm + ">")
    return NotImplemented


# ------------------------------------------------------------------ Option / Result
def opt(c, i=0):
    return v(c, i)


def payo(x):
    return T.payload(x, OPT, 1, 0)


def iso(x):
    return T.is_variant(x, OPT, 1)


def payr(x):
    return T.payload(x, RES, 0, 0)


def paye(x):
    return T.payload(x, RES, 1, 0)


def isok(x):
    return T.is_variant(x, RES, 0)


def unwrap_with(c, x, adt, okv):
    cd = c.it.under(c.st, T.is_variant(x, adt, okv))
    if cd is FALSE:
        return die(c, "unwrap")
    if cd is not TRUE:
        c.it.panics.append((c.act.fn.path, "unwrap", c.st.path + (T.NOT(cd),)))
    if x.op == "ite":
        x = c.it.prune(x, adt, okv)
    return T.payload(x, adt, okv, 0)


M["core::option::unwrap"] = M["core::option::expect"] = M["core::option::unwrap_unchecked"] = lambda c: unwrap_with(c, v(c, 0), OPT, 1)
M["core::result::unwrap"] = M["core::result::expect"] = lambda c: unwrap_with(c, v(c, 0), RES, 0)
M["core::result::unwrap_err"] = M["core::result::expect_err"] = lambda c: unwrap_with(c, v(c, 0), RES, 1)


def bro(c, x, some, none):
    return c.it.branch(c.st, iso(x), lambda s: some(payo(x), s), none)


def brr(c, x, ok, err):
    return c.it.branch(c.st, isok(x), lambda s: ok(payr(x), s), lambda s: err(paye(x), s))


def call(c, f, *a):
    def g(st):
        return c.it.call_clo(f, list(a), st)
    return g


def cc(c, f, args, s):
    return c.it.call_clo(f, args, s)


M["core::option::map"] = lambda c: bro(c, v(c, 0), lambda p, s: T.Some(cc(c, c.args[1], [p], s)), lambda s: T.NoneV())
M["core::option::and_then"] = lambda c: bro(c, v(c, 0), lambda p, s: cc(c, c.args[1], [p], s), lambda s: T.NoneV())
M["core::option::unwrap_or"] = lambda c: bro(c, v(c, 0), lambda p, s: p, lambda s: v(c, 1))
M["core::option::unwrap_or_else"] = lambda c: bro(c, v(c, 0), lambda p, s: p, lambda s: cc(c, c.args[1], [], s))
M["core::option::or_else"] = lambda c: bro(c, v(c, 0), lambda p, s: v(c, 0), lambda s: cc(c, c.args[1], [], s))
M["core::option::or"] = lambda c: bro(c, v(c, 0), lambda p, s: v(c, 0), lambda s: v(c, 1))
M["core::option::map_or"] = lambda c: bro(c, v(c, 0), lambda p, s: cc(c, c.args[2], [p], s), lambda s: v(c, 1))
M["core::option::map_or_else"] = lambda c: bro(c, v(c, 0), lambda p, s: cc(c, c.args[2], [p], s), lambda s: cc(c, c.args[1], [], s))
M["core::option::ok_or"] = lambda c: bro(c, v(c, 0), lambda p, s: T.Ok(p), lambda s: T.Err(v(c, 1)))
M["core::option::ok_or_else"] = lambda c: bro(c, v(c, 0), lambda p, s: T.Ok(p), lambda s: T.Err(cc(c, c.args[1], [], s)))
M["core::option::is_some"] = lambda c: iso(v(c, 0))
M["core::option::is_none"] = lambda c: T.NOT(iso(v(c, 0)))
M["core::option::zip"] = lambda c: ite(T.AND(iso(v(c, 0)), iso(v(c, 1))), T.Some(T.Tuple(payo(v(c, 0)), payo(v(c, 1)))), T.NoneV())
M["core::option::filter"] = lambda c: bro(c, v(c, 0), lambda p, s: ite(c.it.tobool(cc(c, c.args[1], [p], s)), T.Some(p), T.NoneV()), lambda s: T.NoneV())
M["core::option::transpose"] = lambda c: bro(c, v(c, 0), lambda p, s: ite(isok(p), T.Ok(T.Some(payr(p))), T.Err(paye(p))), lambda s: T.Ok(T.NoneV()))
M["core::option::iter"] = lambda c: It("opt", v(c, 0))


@model("core::option::unwrap_or_default")
def _(c):
    return bro(c, v(c, 0), lambda p, s: p, lambda s: App("default") if c.retty is None or c.retty[0] != "prim" else (FALSE if c.retty[1] == "bool" else T.ZERO))


def optplace(c):
    r = c.args[0]
    return Ref(r.a[0], r.a[1] + (("f", OPT, 1, 0),)) if r.op == "ref" else payo(v(c, 0))


@model("core::option::insert")
def _(c):
    setref(c, 0, T.Some(v(c, 1)))
    return optplace(c)


@model("core::option::replace")
def _(c):
    x = v(c, 0)
    setref(c, 0, T.Some(v(c, 1)))
    return x


@model("core::option::get_or_insert", "core::option::get_or_insert_with")
def _(c):
    x = v(c, 0)

    def put(s):
        y = cc(c, c.args[1], [], s) if c.name.endswith("with") else v(c, 1)
        if not s.dead and c.args[0].op == "ref":
            c.it.write_ref(s, c.args[0], T.Some(y))
        return UNIT
    c.it.branch(c.st, iso(x), lambda s: UNIT, put)
    return optplace(c)


M["core::option::is_some_and"] = lambda c: bro(c, v(c, 0), lambda p, s: c.it.tobool(cc(c, c.args[1], [p], s)), lambda s: FALSE)
M["core::option::is_none_or"] = lambda c: bro(c, v(c, 0), lambda p, s: c.it.tobool(cc(c, c.args[1], [p], s)), lambda s: TRUE)
M["core::option::flatten"] = lambda c: bro(c, v(c, 0), lambda p, s: p, lambda s: T.NoneV())
M["core::option::and"] = lambda c: bro(c, v(c, 0), lambda p, s: v(c, 1), lambda s: T.NoneV())
M["core::option::inspect"] = lambda c: bro(c, v(c, 0), lambda p, s: (cc(c, c.args[1], [p], s), T.Some(p))[1], lambda s: T.NoneV())
M["core::result::and"] = lambda c: brr(c, v(c, 0), lambda p, s: v(c, 1), lambda e, s: T.Err(e))
M["core::result::or"] = lambda c: brr(c, v(c, 0), lambda p, s: T.Ok(p), lambda e, s: v(c, 1))
M["core::result::map_or_else"] = lambda c: brr(c, v(c, 0), lambda p, s: cc(c, c.args[2], [p], s), lambda e, s: cc(c, c.args[1], [e], s))
M["core::result::is_ok_and"] = lambda c: brr(c, v(c, 0), lambda p, s: c.it.tobool(cc(c, c.args[1], [p], s)), lambda e, s: FALSE)
M["core::result::is_err_and"] = lambda c: brr(c, v(c, 0), lambda p, s: FALSE, lambda e, s: c.it.tobool(cc(c, c.args[1], [e], s)))
M["core::result::transpose"] = lambda c: brr(c, v(c, 0), lambda p, s: ite(iso(p), T.Some(T.Ok(payo(p))), T.NoneV()), lambda e, s: T.Some(T.Err(e)))
M["core::result::map"] = lambda c: brr(c, v(c, 0), lambda p, s: T.Ok(cc(c, c.args[1], [p], s)), lambda e, s: T.Err(e))
M["core::result::map_err"] = lambda c: brr(c, v(c, 0), lambda p, s: T.Ok(p), lambda e, s: T.Err(cc(c, c.args[1], [e], s)))
M["core::result::and_then"] = lambda c: brr(c, v(c, 0), lambda p, s: cc(c, c.args[1], [p], s), lambda e, s: T.Err(e))
M["core::result::or_else"] = lambda c: brr(c, v(c, 0), lambda p, s: T.Ok(p), lambda e, s: cc(c, c.args[1], [e], s))
M["core::result::unwrap_or"] = lambda c: brr(c, v(c, 0), lambda p, s: p, lambda e, s: v(c, 1))
M["core::result::unwrap_or_else"] = lambda c: brr(c, v(c, 0), lambda p, s: p, lambda e, s: cc(c, c.args[1], [e], s))
M["core::result::unwrap_or_default"] = lambda c: brr(c, v(c, 0), lambda p, s: p, lambda e, s: App("default"))
M["core::result::map_or"] = lambda c: brr(c, v(c, 0), lambda p, s: cc(c, c.args[2], [p], s), lambda e, s: v(c, 1))
M["core::result::is_ok"] = lambda c: isok(v(c, 0))
M["core::result::is_err"] = lambda c: T.NOT(isok(v(c, 0)))
M["core::result::ok"] = lambda c: ite(isok(v(c, 0)), T.Some(payr(v(c, 0))), T.NoneV())
M["core::result::err"] = lambda c: ite(isok(v(c, 0)), T.NoneV(), T.Some(paye(v(c, 0))))

M["core::bool::then"] = lambda c: c.it.branch(c.st, c.it.tobool(v(c, 0)), lambda s: T.Some(cc(c, c.args[1], [], s)), lambda s: T.NoneV())
M["core::bool::then_some"] = lambda c: ite(c.it.tobool(v(c, 0)), T.Some(v(c, 1)), T.NoneV())


# ------------------------------------------------------------------ closures
@model("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def _(c):
    a = c.args[1]
    if a.op == "tuple":
        args = list(a.a)
    else:
        args = [a]
    return c.it.call_clo(c.args[0], args, c.st)


# ------------------------------------------------------------------ iterators
def itarg(c, i=0):
    t = c.targs[0] if c.targs and i == 0 else None
    return IT.as_it(c.it, c.args[i], c.st, strip(t) if t else None)


def is_map_ty(t):
    return t[0] == "adt" and t[1].rsplit("::", 1)[1] in ("BTreeMap", "HashMap", "BTreeSet", "HashSet")


@model("core::iter::traits::collect::IntoIterator::into_iter")
def _(c):
    t = c.targs[0]
    x = c.args[0]
    P = c.it.P
    if x.op == "it":
        return x
    st_ = strip(t)
    c.it.note_len(x, t, c.st)
    if is_map_ty(st_):
        return SEQ(App("items", v(c, 0)))
    if t[0] in ("adt", "ref"):
        if st_[0] == "adt" and st_[1] not in ("alloc::vec::Vec", OPT) and not st_[1].startswith("core::"):
            # implementation in an analysed crate
            im, m = P.find_impl("core::iter::traits::collect::IntoIterator", (t,))
            if im is not None:
                it = im["itemmap"].get("into_iter")
                fn = P.fns.get(it[1]) if it else None
                if fn is not None:
                    mm = c.it.models.get(fn.path)
                    if mm:
                        return mm(c)
                    return c.it.call_fn(fn, [x], m, c.st)
    return IT.as_it(c.it, x, c.st, st_)


def seqit(c, i=0):
    return SEQ(v(c, i))


M["core::slice::iter"] = M["core::array::iter"] = M["core::str::bytes"] = M["core::array::into_iter"] = seqit
M["core::str::chars"] = seqit
M["core::slice::iter_mut"] = lambda c: It("mut", c.args[0]) if c.args[0].op == "ref" else seqit(c)
M["core::slice::chunks"] = lambda c: It("chunks", v(c, 0), v(c, 1), 0)
M["core::slice::chunks_exact"] = lambda c: It("chunks", v(c, 0), v(c, 1), 1)
M["core::slice::chunks_mut"] = lambda c: It("chunksmut", c.args[0], v(c, 1), 0) if c.args[0].op == "ref" else It("chunks", v(c, 0), v(c, 1), 0)
M["core::slice::chunks_exact_mut"] = lambda c: It("chunksmut", c.args[0], v(c, 1), 1) if c.args[0].op == "ref" else It("chunks", v(c, 0), v(c, 1), 1)
M["core::slice::windows"] = lambda c: It("windows", v(c, 0), v(c, 1))
M["core::iter::sources::empty::empty"] = lambda c: IT.EMPTY
M["core::iter::sources::once::once"] = lambda c: SEQ(T.Arr([c.args[0]]))
M["core::iter::sources::repeat::repeat"] = lambda c: It("repeat", v(c, 0))
M["core::iter::sources::repeat_n::repeat_n"] = lambda c: It("take", It("repeat", v(c, 0)), v(c, 1))
M["core::iter::sources::successors::successors"] = lambda c: It("succ", c.args[0], c.args[1])
M["core::iter::sources::repeat_with::repeat_with"] = lambda c: It("map", It("range", T.ZERO, T.INF), _mk("ignarg", (c.args[0],)))
M["core::iter::adapters::zip::zip"] = lambda c: It("zip", itarg(c), IT.as_it(c.it, c.args[1], c.st))
I_ = "core::iter::traits::iterator::Iterator::"
M[I_ + "map"] = lambda c: It("map", itarg(c), c.args[1])
M[I_ + "filter"] = lambda c: It("filter", itarg(c), c.args[1])
M[I_ + "filter_map"] = lambda c: It("filter_map", itarg(c), c.args[1])
M[I_ + "flat_map"] = lambda c: It("flat_map", itarg(c), c.args[1])
M[I_ + "flatten"] = lambda c: It("flatten", itarg(c))
M[I_ + "enumerate"] = lambda c: It("enum", itarg(c), T.ZERO)
M[I_ + "zip"] = lambda c: It("zip", itarg(c), IT.as_it(c.it, c.args[1], c.st))
M[I_ + "chain"] = lambda c: It("chain", itarg(c), IT.as_it(c.it, c.args[1], c.st, c.targs[1] if len(c.targs) > 1 else None))
M[I_ + "rev"] = lambda c: It("rev", itarg(c))
M[I_ + "take"] = lambda c: It("take", itarg(c), v(c, 1))
M[I_ + "skip"] = lambda c: It("skip", itarg(c), v(c, 1))
M[I_ + "step_by"] = lambda c: It("step", itarg(c), v(c, 1))
M[I_ + "take_while"] = lambda c: It("take_while", itarg(c), c.args[1])
M[I_ + "inspect"] = lambda c: It("inspect", itarg(c), c.args[1])
M[I_ + "scan"] = lambda c: It("scan", itarg(c), v(c, 1), c.args[2])


def seqs_ty(t):
    return t is not None and t[0] == "adt" and t[1] in (RES, OPT)


@model(I_ + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def _(c):
    it = IT.as_it(c.it, c.args[0], c.st)
    t = c.retty if c.retty is not None else (c.targs[1] if len(c.targs) > 1 else None)
    if t is not None and seqs_ty(t):
        inner = t[2][0]
        r = IT.collect_try(c.it, it, c.st, t[1])
        return r
    x = IT.collect(c.it, it, c.st)
    if t is not None and is_map_ty(t):
        return App("mapof", c.it.reify(x, c.st))
    return x


@model(I_ + "for_each")
def _(c):
    f = c.args[1]
    IT.drive(c.it, itarg(c), lambda x, s: c.it.call_clo(f, [x], s), c.st)
    return UNIT


@model(I_ + "fold")
def _(c):
    f = c.args[2]
    return IT.fold(c.it, itarg(c), c.args[1], lambda a, x, s: c.it.call_clo(f, [a, x], s), c.st)


@model(I_ + "try_fold")
def _(c):
    f = c.args[2]
    I = c.it
    cell = I.alloc(c.st, c.args[1])
    rt = c.retty
    adt = rt[1] if rt and rt[0] == "adt" else RES
    okv = 0 if adt == RES else 1

    def run(stop):
        def b(x, s):
            r = I.call_clo(f, [s.cells[cell], x], s)
            if s.dead:
                return

            def good(s2):
                s2.cells[cell] = T.payload(r, adt, okv, 0)
                return UNIT
            I.branch(s, T.is_variant(r, adt, okv), good, lambda s2: stop(s2, T.Err(paye(r)) if adt == RES else T.NoneV()))
        IT.drive(I, itarg(c), b, c.st)
    return IT.early(I, c.st, run, lambda s: T.Ok(s.cells[cell]) if adt == RES else T.Some(s.cells[cell]))


@model(I_ + "try_for_each")
def _(c):
    f = c.args[1]
    I = c.it

    def run(stop):
        def b(x, s):
            r = I.call_clo(f, [x], s)
            if s.dead:
                return
            I.branch(s, isok(r), lambda s2: UNIT, lambda s2: stop(s2, T.Err(paye(r))))
        IT.drive(I, itarg(c), b, c.st)
    return IT.early(I, c.st, run, lambda s: T.Ok(UNIT))


@model(I_ + "reduce")
def _(c):
    f = c.args[1]
    I = c.it
    it = itarg(c)
    x = IT.collect(I, it, c.st)
    if c.st.dead:
        return UNIT
    n = T.seqlen(x)
    if n is T.ZERO:
        return T.NoneV()
    r = IT.fold(I, It("skip", SEQ(x), T.ONE), T.idx(x, T.ZERO), lambda a, y, s: I.call_clo(f, [a, y], s), c.st)
    if n.op == "int":
        return T.Some(r)
    return ite(T.eq(n, T.ZERO), T.NoneV(), T.Some(r))


@model(I_ + "sum")
def _(c):
    return IT.fold(c.it, itarg(c), T.ZERO, lambda a, x, s: T.add(a, c.it.deref(s, x)), c.st)


@model(I_ + "product")
def _(c):
    return IT.fold(c.it, itarg(c), T.ONE, lambda a, x, s: T.mul(a, c.it.deref(s, x)), c.st)


def allany(c, want):
    I = c.it
    f = c.args[1]

    def run(stop):
        def b(x, s):
            r = I.tobool(I.call_clo(f, [x], s))
            if s.dead:
                return
            if want:
                I.branch(s, r, lambda s2: stop(s2, TRUE), lambda s2: UNIT)
            else:
                I.branch(s, r, lambda s2: UNIT, lambda s2: stop(s2, FALSE))
        IT.drive(I, itarg(c), b, c.st)
    return IT.early(I, c.st, run, lambda s: T.Bool(not want))


M[I_ + "all"] = lambda c: allany(c, False)
M[I_ + "any"] = lambda c: allany(c, True)


@model(I_ + "find", I_ + "position", I_ + "find_map", I_ + "rposition")
def _(c):
    I = c.it
    f = c.args[1]
    it = itarg(c)
    kind = c.name
    if kind == "position":
        it = It("enum", it, T.ZERO)

    def run(stop):
        def b(x, s):
            if kind == "position":
                i, y = T.field(x, None, 0, 0), T.field(x, None, 0, 1)
                r = I.call_clo(f, [y], s)
                I.branch(s, I.tobool(r), lambda s2: stop(s2, T.Some(i)), lambda s2: UNIT)
            elif kind == "find_map":
                r = I.call_clo(f, [x], s)
                I.branch(s, iso(r), lambda s2: stop(s2, T.Some(payo(r))), lambda s2: UNIT)
            else:
                r = I.call_clo(f, [x], s)
                I.branch(s, I.tobool(r), lambda s2: stop(s2, T.Some(x)), lambda s2: UNIT)
        IT.drive(I, it, b, c.st)
    if kind == "rposition":
        return App("rposition", I.reify(it, c.st), I.reify(f, c.st))
    return IT.early(I, c.st, run, lambda s: T.NoneV())


@model(I_ + "max", I_ + "min")
def _(c):
    x = c.it.reify(IT.collect(c.it, itarg(c), c.st), c.st)
    if x.op == "arr":
        if not x.a:
            return T.NoneV()
        return T.Some(T._fold_bin(T.MAX if c.name == "max" else T.MIN, x.a))
    return App("seq" + c.name, x)


@model(I_ + "max_by", I_ + "min_by", I_ + "max_by_key", I_ + "min_by_key", I_ + "cmp", I_ + "partial_cmp")
def _(c):
    return App("iter" + c.name, *[c.it.reify(a, c.st) for a in c.args])


@model(I_ + "count", "core::iter::traits::exact_size::ExactSizeIterator::len")
def _(c):
    it = itarg(c)
    if it.a[0] == "byref":
        it = c.it.deref(c.st, it.a[1])
    n = IT.length(c.it, it, c.st)
    if n is not None and n is not T.INF:
        return n
    return T.seqlen(IT.collect(c.it, it, c.st))


@model(I_ + "last")
def _(c):
    x = IT.collect(c.it, itarg(c), c.st)
    return last_of(x)


def last_of(x):
    n = T.seqlen(x)
    if n is T.ZERO:
        return T.NoneV()
    l = T.Some(T.idx(x, T.sub(n, T.ONE)))
    if x.op == "cat" and x.a[-1].op == "arr":
        l = T.Some(x.a[-1].a[-1])
        return l
    if n.op == "int":
        return l
    return ite(T.eq(n, T.ZERO), T.NoneV(), l)


@model(I_ + "nth")
def _(c):
    r = c.args[0]
    it = c.it.deref(c.st, r)
    it = IT.as_it(c.it, it, c.st)
    val, rest = IT.step_next(c.it, It("skip", it, v(c, 1)), c.st)
    setref(c, 0, rest)
    return val


@model(I_ + "next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def _(c):
    r = c.args[0]
    it = c.it.deref(c.st, r)
    it = IT.as_it(c.it, it, c.st)
    if c.name == "next_back":
        val, rest = IT.step_next(c.it, It("rev", it), c.st)
        setref(c, 0, It("rev", rest))
        return val
    val, rest = IT.step_next(c.it, it, c.st)
    setref(c, 0, rest)
    return val


@model(I_ + "unzip")
def _(c):
    x = IT.collect(c.it, itarg(c), c.st)
    return T.Tuple(mapseq(x, lambda e: T.field(e, None, 0, 0)), mapseq(x, lambda e: T.field(e, None, 0, 1)))


def mapseq(x, f):
    if x.op == "arr":
        return T.Arr([f(y) for y in x.a])
    if x.op == "cat":
        return T.Cat(*[mapseq(y, f) for y in x.a])
    if x.op == "ite":
        return ite(x.a[0], mapseq(x.a[1], f), mapseq(x.a[2], f))
    if x.op == "flat":
        fs, b = T._open(x.a[1])
        return _mk("flat", (x.a[0], Lam(fs, mapseq(b, f))))
    i = Fresh("i")
    return T.Seq(T.seqlen(x), Lam([i], f(T.idx(x, i))))


@model(I_ + "partition")
def _(c):
    it = itarg(c)
    a = IT.collect(c.it, It("filter", it, c.args[1]), c.st.copy())
    return T.Tuple(a, App("partition_rest", c.it.reify(it, c.st), c.it.reify(c.args[1], c.st)))


@model(I_ + "size_hint")
def _(c):
    return App("size_hint", c.it.reify(c.args[0], c.st))


@model("core::array::map")
def _(c):
    x = v(c, 0)
    n = T.seqlen(x)
    t = strip(c.targs[0]) if c.targs else None
    return IT.collect(c.it, It("map", SEQ(x), c.args[1]), c.st)


@model("core::array::from_fn::from_fn", "core::array::from_fn")
def _(c):
    t = c.retty
    n = c.it.cst(t[2], None, c.st) if t and t[0] == "array" else Fresh("n")
    return IT.collect(c.it, It("map", It("range", T.ZERO, n), c.args[0]), c.st)


# ------------------------------------------------------------------ Vec / slice
M["alloc::vec::new"] = M["alloc::vec::with_capacity"] = M["alloc::string::new"] = M["alloc::vec::new_in"] = lambda c: T.Arr([])
M["alloc::vec::from_elem"] = lambda c: T.Rep(v(c, 0), v(c, 1))
for k in "alloc::vec::len core::slice::len alloc::string::len core::str::len core::array::len".split():
    M[k] = lambda c: T.seqlen(v(c, 0))
for k in "alloc::vec::is_empty core::slice::is_empty core::str::is_empty alloc::string::is_empty".split():
    M[k] = lambda c: T.eq(T.seqlen(v(c, 0)), T.ZERO)
for k in "alloc::vec::reserve alloc::vec::shrink_to_fit alloc::vec::reserve_exact".split():
    M[k] = lambda c: UNIT
M["alloc::vec::capacity"] = lambda c: App("capacity")


@model("alloc::vec::push", "alloc::string::push")
def _(c):
    x = v(c, 0)
    setref(c, 0, T.Cat(x, T.Arr([c.args[1]])))
    return UNIT


@model("alloc::vec::insert")
def _(c):
    x, i, e = v(c, 0), v(c, 1), c.args[2]
    setref(c, 0, T.Cat(T.Slice(x, T.ZERO, i), T.Arr([e]), T.Slice(x, i, T.seqlen(x))))
    return UNIT


@model("alloc::vec::remove", "alloc::vec::swap_remove")
def _(c):
    x, i = v(c, 0), v(c, 1)
    e = T.idx(x, i)
    if c.name == "swap_remove":
        setref(c, 0, App("swap_remove", x, i))
        return e
    setref(c, 0, T.Cat(T.Slice(x, T.ZERO, i), T.Slice(x, T.add(i, T.ONE), T.seqlen(x))))
    return e


@model("alloc::vec::pop")
def _(c):
    x = v(c, 0)
    n = T.seqlen(x)
    if x.op == "cat" and x.a[-1].op == "arr" and x.a[-1].a:
        l = x.a[-1].a[-1]
        setref(c, 0, T.Cat(*(x.a[:-1] + (T.Arr(x.a[-1].a[:-1]),))))
        return T.Some(l)
    if n is T.ZERO:
        return T.NoneV()
    m = T.sub(n, T.ONE)
    r = T.Some(T.idx(x, m))
    if n.op == "int":
        setref(c, 0, T.Slice(x, T.ZERO, m))
        return r
    e = T.eq(n, T.ZERO)
    setref(c, 0, ite(e, x, T.Slice(x, T.ZERO, m)))
    return ite(e, T.NoneV(), r)


@model("alloc::vec::resize")
def _(c):
    x, n, e = v(c, 0), v(c, 1), v(c, 2)
    L = T.seqlen(x)
    d = T.sub(n, L)
    if d.op == "int" and d.a[0] <= 0:
        setref(c, 0, T.Slice(x, T.ZERO, n))
    elif x.op == "arr" and not x.a or d.op == "int":
        setref(c, 0, T.Cat(x, T.Rep(e, d)))
    else:
        m = T.MIN(L, n)
        setref(c, 0, T.Cat(T.Slice(x, T.ZERO, m), T.Rep(e, T.sub(n, m))))
    return UNIT


@model("alloc::vec::truncate")
def _(c):
    x, n = v(c, 0), v(c, 1)
    L = T.seqlen(x)
    d = T.sub(n, L)
    if d.op == "int" and d.a[0] >= 0:
        return UNIT
    if d.op == "int" or c.it.opts.get("trunc_exact"):
        setref(c, 0, T.Slice(x, T.ZERO, n))
    else:
        setref(c, 0, T.Slice(x, T.ZERO, T.MIN(n, L)))
    return UNIT


@model("alloc::vec::clear")
def _(c):
    setref(c, 0, T.Arr([]))
    return UNIT


@model("alloc::vec::extend_from_slice", "alloc::string::push_str")
def _(c):
    x = v(c, 0)
    setref(c, 0, T.Cat(x, v(c, 1)))
    return UNIT


@model("alloc::vec::append")
def _(c):
    x, y = v(c, 0), v(c, 1)
    setref(c, 0, T.Cat(x, y))
    setref(c, 1, T.Arr([]))
    return UNIT


@model("core::iter::traits::collect::Extend::extend")
def _(c):
    t = strip(c.targs[0])
    if is_map_ty(t):
        x = v(c, 0)
        y = c.it.reify(IT.collect(c.it, IT.as_it(c.it, c.args[1], c.st), c.st), c.st)
        setref(c, 0, App("mapextend", x, y))
        return UNIT
    y = IT.collect(c.it, IT.as_it(c.it, c.args[1], c.st), c.st)
    if c.st.dead:
        return UNIT
    setref(c, 0, T.Cat(v(c, 0), y))
    return UNIT


@model("alloc::vec::drain")
def _(c):
    x = v(c, 0)
    lo, hi = rng(c, c.args[1], x)
    setref(c, 0, T.Cat(T.Slice(x, T.ZERO, lo), T.Slice(x, hi, T.seqlen(x))))
    return SEQ(T.Slice(x, lo, hi))


@model("alloc::vec::split_off")
def _(c):
    x, n = v(c, 0), v(c, 1)
    setref(c, 0, T.Slice(x, T.ZERO, n))
    return T.Slice(x, n, T.seqlen(x))


@model("alloc::vec::retain", "alloc::vec::dedup", "alloc::vec::dedup_by", "alloc::vec::dedup_by_key", "alloc::slice::sort_by_key", "alloc::slice::sort",
       "core::slice::sort_unstable", "core::slice::sort_unstable_by_key", "core::slice::sort_unstable_by", "alloc::slice::sort_by", "core::slice::rotate_left",
       "core::slice::rotate_right", "alloc::slice::sort_by_cached_key")
def _(c):
    x = v(c, 0)
    nm = c.name.replace("_unstable", "")
    setref(c, 0, App("vec_" + nm, x, *[c.it.reify(a, c.st) for a in c.args[1:]]))
    return UNIT


@model("core::slice::reverse")
def _(c):
    setref(c, 0, T.Rev(v(c, 0)))
    return UNIT


@model("core::slice::swap")
def _(c):
    x, i, j = v(c, 0), v(c, 1), v(c, 2)
    a, b = T.idx(x, i), T.idx(x, j)
    setref(c, 0, T.Store(T.Store(x, i, b), j, a))
    return UNIT


@model("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def _(c):
    setref(c, 0, v(c, 1))
    return UNIT


@model("core::slice::fill")
def _(c):
    x = v(c, 0)
    setref(c, 0, T.Rep(v(c, 1), T.seqlen(x)))
    return UNIT


M["core::slice::last"] = lambda c: last_of(v(c, 0))


@model("core::slice::first")
def _(c):
    x = v(c, 0)
    n = T.seqlen(x)
    if n is T.ZERO:
        return T.NoneV()
    f = T.Some(T.idx(x, T.ZERO))
    if n.op == "int" or x.op == "cat" and x.a[0].op == "arr":
        return f
    return ite(T.eq(n, T.ZERO), T.NoneV(), f)


@model("core::slice::last_mut", "core::slice::first_mut")
def _(c):
    r = c.args[0]
    x = v(c, 0)
    n = T.seqlen(x)
    i = T.sub(n, T.ONE) if c.name == "last_mut" else T.ZERO
    if r.op != "ref":
        return T.Some(T.idx(x, i))
    rr = T.Some(Ref(r.a[0], r.a[1] + (("i", i),)))
    return rr if n.op == "int" else ite(T.eq(n, T.ZERO), T.NoneV(), rr)


@model("core::slice::split_first")
def _(c):
    x = v(c, 0)
    n = T.seqlen(x)
    if n is T.ZERO:
        return T.NoneV()
    f = T.Some(T.Tuple(T.idx(x, T.ZERO), T.Slice(x, T.ONE, n)))
    return f if n.op == "int" else ite(T.eq(n, T.ZERO), T.NoneV(), f)


@model("core::slice::split_last")
def _(c):
    x = v(c, 0)
    n = T.seqlen(x)
    if n is T.ZERO:
        return T.NoneV()
    k = T.sub(n, T.ONE)
    f = T.Some(T.Tuple(T.idx(x, k), T.Slice(x, T.ZERO, k)))
    return f if n.op == "int" else ite(T.eq(n, T.ZERO), T.NoneV(), f)


@model("core::slice::split_at")
def _(c):
    x, n = v(c, 0), v(c, 1)
    return T.Tuple(T.Slice(x, T.ZERO, n), T.Slice(x, n, T.seqlen(x)))


@model("core::slice::split_at_mut")
def _(c):
    r, n = c.args[0], v(c, 1)
    x = v(c, 0)
    if r.op != "ref":
        return T.Tuple(T.Slice(x, T.ZERO, n), T.Slice(x, n, T.seqlen(x)))
    return T.Tuple(Ref(r.a[0], r.a[1] + (("s", T.ZERO, n),)), Ref(r.a[0], r.a[1] + (("s", n, T.seqlen(x)),)))


@model("core::slice::contains")
def _(c):
    x, y = v(c, 0), v(c, 1)
    if x.op == "arr":
        return T.OR(*[T.eq(e, y) for e in x.a])
    i = Fresh("i")
    return _mk("any", (T.seqlen(x), Lam([i], T.eq(T.idx(x, i), y))))


def rng(c, r, x):
    r = c.it.deref(c.st, r)
    n = T.seqlen(x)
    if r.op == "app" and r.a[0] == "rangeincl":
        return r.a[1], T.add(r.a[2], T.ONE)
    if r.op == "adt":
        nm = r.a[0].rsplit("::", 1)[1]
        if nm == "Range":
            return r.a[2], r.a[3]
        if nm == "RangeFrom":
            return r.a[2], n
        if nm == "RangeTo":
            return T.ZERO, r.a[2]
        if nm == "RangeFull":
            return T.ZERO, n
        if nm == "RangeToInclusive":
            return T.ZERO, T.add(r.a[2], T.ONE)
    return None


@model("core::ops::index::Index::index")
def _(c):
    t = strip(c.targs[0])
    it_ = strip(c.targs[1])
    if t[0] == "adt" and is_map_ty(t):
        return App("mapget!", v(c, 0), v(c, 1))
    if t[0] == "adt" and t[1] not in ("alloc::vec::Vec", "alloc::string::String") and t[1].split("::")[0] not in ("alloc", "core"):
        return NotImplemented
    x = v(c, 0)
    if it_[0] == "adt":
        r = rng(c, c.args[1], x)
        if r is None:
            return App("index", x, v(c, 1))
        return T.Slice(x, *r)
    return T.idx(x, v(c, 1))


@model("core::ops::index::IndexMut::index_mut")
def _(c):
    t = strip(c.targs[0])
    it_ = strip(c.targs[1])
    if t[0] == "adt" and t[1] not in ("alloc::vec::Vec", "alloc::string::String") and t[1].split("::")[0] not in ("alloc", "core"):
        return NotImplemented
    r0 = c.args[0]
    if r0.op != "ref":
        return M["core::ops::index::Index::index"](c)
    x = v(c, 0)
    while True:
        w = c.it.read(c.st, r0.a[0], r0.a[1])
        if w.op == "ref":
            r0 = w
        else:
            break
    if it_[0] == "adt":
        r = rng(c, c.args[1], x)
        if r is None:
            return Ref(r0.a[0], r0.a[1] + (("i", v(c, 1)),))
        if r[0] is T.ZERO and r[1] is T.seqlen(x):
            return r0
        return Ref(r0.a[0], r0.a[1] + (("s", r[0], r[1]),))
    return Ref(r0.a[0], r0.a[1] + (("i", v(c, 1)),))


@model("core::slice::get")
def _(c):
    x = v(c, 0)
    t = strip(c.targs[1]) if len(c.targs) > 1 else None
    if t is not None and t[0] == "adt":
        r = rng(c, c.args[1], x)
        if r is not None:
            ok = T.AND(T.le(r[0], r[1]), T.le(r[1], T.seqlen(x)))
            return ite(ok, T.Some(T.Slice(x, *r)), T.NoneV())
    i = v(c, 1)
    ok = T.lt(i, T.seqlen(x))
    return ite(ok, T.Some(T.idx(x, i)), T.NoneV()) if ok is not FALSE else T.NoneV()


@model("bitvec::slice::api::get_mut")
@model("core::slice::get_mut")
def _(c):
    r = c.args[0]
    x = v(c, 0)
    i = v(c, 1)
    ok = T.lt(i, T.seqlen(x))
    if ok is FALSE:
        return T.NoneV()
    return ite(ok, T.Some(Ref(r.a[0], r.a[1] + (("i", i),)) if r.op == "ref" else T.idx(x, i)), T.NoneV())


@model("core::ops::range::contains")
def _(c):
    r, x = v(c, 0), v(c, 1)
    if r.op == "adt":
        nm = r.a[0].rsplit("::", 1)[1]
        if nm == "Range":
            return T.AND(T.le(r.a[2], x), T.lt(x, r.a[3]))
        if nm == "RangeTo":
            return T.lt(x, r.a[2])
        if nm == "RangeFrom":
            return T.le(r.a[2], x)
    elif r.op not in ("app", "ite") and c.e is not None and c.e.get("args"):
        t = c.it.ty(c.act, c.act.fn.exprs[c.e["args"][0]]["t"])
        while t[0] == "ref":
            t = t[2]
        nm = t[1].rsplit("::", 1)[1] if t[0] == "adt" else ""
        if nm == "Range":
            return T.AND(T.le(T.field(r, t[1], 0, 0), x), T.lt(x, T.field(r, t[1], 0, 1)))
        if nm == "RangeTo":
            return T.lt(x, T.field(r, t[1], 0, 0))
        if nm == "RangeFrom":
            return T.le(T.field(r, t[1], 0, 0), x)
    if r.op == "app" and r.a[0] == "rangeincl":
        return T.AND(T.le(r.a[1], x), T.le(x, r.a[2]))
    return _mk("bcond", (App("contains", r, x),))


M["core::ops::range::new"] = lambda c: App("rangeincl", v(c, 0), v(c, 1))


@model("core::slice::binary_search")
def _(c):
    return App("binary_search", v(c, 0), v(c, 1))


# ------------------------------------------------------------------ maps
EMPTYMAP = T.Sym("emptymap")
for mp in ("alloc::collections::btree::map::", "hashbrown::map::", "alloc::collections::btree::set::", "hashbrown::set::", "std::collections::hash::map::", "std::collections::hash::set::"):
    M[mp + "new"] = M[mp + "with_capacity"] = M[mp + "default"] = lambda c: EMPTYMAP
    M[mp + "len"] = lambda c: App("maplen", v(c, 0))
    M[mp + "is_empty"] = lambda c: T.eq(App("maplen", v(c, 0)), T.ZERO)
    M[mp + "iter"] = M[mp + "into_iter"] = lambda c: SEQ(App("items", v(c, 0)))
    M[mp + "iter_mut"] = lambda c: It("mapmut", c.args[0], App("keys", v(c, 0)), True) if c.args[0].op == "ref" else SEQ(App("items", v(c, 0)))
    M[mp + "keys"] = M[mp + "into_keys"] = lambda c: SEQ(App("keys", v(c, 0)))
    M[mp + "values"] = M[mp + "into_values"] = lambda c: SEQ(App("values", v(c, 0)))
    M[mp + "values_mut"] = lambda c: It("mapmut", c.args[0], App("keys", v(c, 0)), False) if c.args[0].op == "ref" else SEQ(App("values", v(c, 0)))
    M[mp + "contains_key"] = M[mp + "contains"] = lambda c: _mk("bcond", (App("haskey", v(c, 0), v(c, 1)),))

    def _get(c):
        m, k = v(c, 0), v(c, 1)
        cnd = _mk("bcond", (App("haskey", m, k),))
        return ite(cnd, T.Some(App("mapget!", m, k)), T.NoneV())
    M[mp + "get"] = _get

    def _getmut(c):
        m, k = v(c, 0), v(c, 1)
        cnd = _mk("bcond", (App("haskey", m, k),))
        r = c.args[0]
        return ite(cnd, T.Some(Ref(r.a[0], r.a[1] + (("k", k),)) if r.op == "ref" else App("mapget!", m, k)), T.NoneV())
    M[mp + "get_mut"] = _getmut

    def _ins(c):
        m = v(c, 0)
        ks = [c.it.reify(a, c.st) for a in c.args[1:]]
        setref(c, 0, App("mapput", m, *ks) if len(ks) == 2 else App("setput", m, *ks))
        if "set" in c.key:
            return T.NOT(_mk("bcond", (App("haskey", m, ks[0]),)))
        return App("mapgetopt", m, ks[0])
    M[mp + "insert"] = _ins

    def _rem(c):
        m, k = v(c, 0), v(c, 1)
        setref(c, 0, App("mapdel", m, k))
        return App("mapgetopt", m, k)
    M[mp + "remove"] = _rem

    def _app(c):
        m, k = v(c, 0), v(c, 1)
        setref(c, 0, App("mapappend", m, k))
        setref(c, 1, EMPTYMAP)
        return UNIT
    M[mp + "append"] = _app

    def _entry(c):
        return _mk("entry", (c.args[0], v(c, 1)))
    M[mp + "entry"] = _entry

    def _andmod(c):
        e = c.args[0]
        if e.op != "entry":
            return e
        r, k = e.a
        m = c.it.deref(c.st, r)
        cnd = _mk("bcond", (App("haskey", m, k),))

        def doit(s):
            c.it.call_clo(c.args[1], [Ref(r.a[0], r.a[1] + (("k", k),))], s)
            return UNIT
        c.it.branch(c.st, cnd, doit, lambda s: UNIT)
        return e
    M[mp + "and_modify"] = M[mp + "entry::and_modify"] = _andmod

    def _orins(c):
        e = c.args[0]
        if e.op != "entry":
            return Top("entry")
        r, k = e.a
        m = c.it.deref(c.st, r)
        nm = c.name
        if nm == "or_insert":
            d = c.args[1]
        elif nm == "or_insert_with":
            d = c.it.call_clo(c.args[1], [], c.st)
        else:
            d = App("default")
            if c.retty is not None:
                t = strip(c.retty)
                if t[0] == "adt" and t[1] == "alloc::vec::Vec":
                    d = T.Arr([])
                elif t[0] == "prim":
                    d = FALSE if t[1] == "bool" else T.ZERO
                elif is_map_ty(t):
                    d = EMPTYMAP
        d = c.it.reify(d, c.st)
        c.it.write_ref(c.st, r, App("mapdefault", m, k, d))
        return Ref(r.a[0], r.a[1] + (("k", k),))
    for n_ in ("or_insert", "or_insert_with", "or_default"):
        M[mp + n_] = M[mp + "entry::" + n_] = _orins


# ------------------------------------------------------------------ ring operators
def is_prim(t):
    t = strip(t)
    return t[0] == "prim"


def ring2(op):
    def f(c):
        t = strip(c.targs[0])
        a, b = v(c, 0), v(c, 1)
        return binop(op, a, b, t)
    return f


def ringassign(op):
    def f(c):
        t = strip(c.targs[0])
        a, b = v(c, 0), v(c, 1)
        setref(c, 0, binop(op, a, b, t))
        return UNIT
    return f


A_ = "core::ops::arith::"
for nm, op in (("Add::add", "+"), ("Sub::sub", "-"), ("Mul::mul", "*")):
    M[A_ + nm] = ring2(op)
for nm, op in (("AddAssign::add_assign", "+"), ("SubAssign::sub_assign", "-"), ("MulAssign::mul_assign", "*")):
    M[A_ + nm] = ringassign(op)
M[A_ + "Neg::neg"] = lambda c: T.neg(v(c, 0))
M[A_ + "Div::div"] = ring2("/")
M[A_ + "Rem::rem"] = ring2("%")
B_ = "core::ops::bit::"


def boolty(t):
    t = strip(t)
    return t == ("prim", "bool") or t[0] == "adt" and t[1] == "subtle::Choice"


def bit2(op):
    def f(c):
        a, b = v(c, 0), v(c, 1)
        if boolty(c.targs[0]):
            a, b = c.it.tobool(a), c.it.tobool(b)
            return binop(op, a, b, ("prim", "bool"))
        return binop(op, a, b, strip(c.targs[0]))
    return f


for nm, op in (("BitAnd::bitand", "&"), ("BitOr::bitor", "|"), ("BitXor::bitxor", "^"), ("Shl::shl", "<<"), ("Shr::shr", ">>")):
    M[B_ + nm] = bit2(op)


def bitass(op):
    def f(c):
        a, b = v(c, 0), v(c, 1)
        if boolty(c.targs[0]):
            r = binop(op, c.it.tobool(a), c.it.tobool(b), ("prim", "bool"))
        else:
            r = binop(op, a, b, strip(c.targs[0]))
        setref(c, 0, r)
        return UNIT
    return f


for nm, op in (("BitAndAssign::bitand_assign", "&"), ("BitOrAssign::bitor_assign", "|"), ("BitXorAssign::bitxor_assign", "^")):
    M[B_ + nm] = bitass(op)


@model(B_ + "Not::not")
def _(c):
    x = v(c, 0)
    if boolty(c.targs[0]):
        return T.NOT(c.it.tobool(x))
    return App("bitnot", x)


M["core::cmp::PartialEq::eq"] = lambda c: T.eq(c.it.reify(c.args[0], c.st), c.it.reify(c.args[1], c.st))
M["core::cmp::PartialEq::ne"] = lambda c: T.NOT(T.eq(c.it.reify(c.args[0], c.st), c.it.reify(c.args[1], c.st)))


def cmpop(op):
    def f(c):
        t = strip(c.targs[0])
        if t[0] == "adt" and t[1].startswith("log::"):
            return FALSE
        a, b = v(c, 0), v(c, 1)
        if t[0] == "prim" or a.op == "int" or b.op == "int":
            return binop(op, a, b, t)
        if op == "<":
            return _mk("bcond", (App("ltv", a, b),))
        if op == ">":
            return _mk("bcond", (App("ltv", b, a),))
        if op == "<=":
            return T.NOT(_mk("bcond", (App("ltv", b, a),)))
        return T.NOT(_mk("bcond", (App("ltv", a, b),)))
    return f


for nm, op in (("lt", "<"), ("gt", ">"), ("le", "<="), ("ge", ">=")):
    M["core::cmp::PartialOrd::" + nm] = cmpop(op)
ORD = "core::cmp::Ordering"


def tristate(a, b):
    L, E, G = (_mk("adt", (ORD, k)) for k in (0, 1, 2))
    return ite(T.lt(a, b), L, ite(T.eq(a, b), E, G))


@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def _(c):
    t = strip(c.targs[0])
    if c.it.P.find_impl(c.trait, c.targs)[0] is not None and t[0] == "adt":
        return NotImplemented
    a, b = v(c, 0), v(c, 1)
    if t[0] == "prim":
        r = tristate(a, b)
    else:
        r = App("cmp", a, b)
    return r if c.name == "cmp" else T.Some(r)


@model("core::cmp::reverse")
def _(c):
    return App("ord_reverse", v(c, 0))


M["core::cmp::max"] = M["core::cmp::Ord::max"] = lambda c: T.MAX(v(c, 0), v(c, 1))
M["core::cmp::min"] = M["core::cmp::Ord::min"] = lambda c: T.MIN(v(c, 0), v(c, 1))
M["core::ptr::eq"] = lambda c: T.eq(v(c, 0), v(c, 1))


# ------------------------------------------------------------------ ints
def numty(c):
    # inherent methods: type from first argument's declared type / return
    if c.e is not None and c.act is not None and c.e.get("args"):
        return strip(c.it.ty(c.act, c.act.fn.exprs[c.e["args"][0]]["t"]))
    return ("prim", "u64")


def wrapping(op):
    def f(c):
        t = numty(c)
        a, b = v(c, 0), v(c, 1)
        r = {"+": T.add, "-": T.sub, "*": T.mul}[op](a, b)
        if r.op == "int":
            return Int(wrap_const(r.a[0], t))
        return App("wrap", r, Int(bits(t)))
    return f


def wrapnode(r, b):
    b = b.a[0] if b.__class__ is N else b
    if r.op == "int":
        return Int(r.a[0] & ((1 << b) - 1))
    # coefficients modulo 2^b
    d = {}
    for m, k in T._terms(r).items():
        # unwrap nested wraps of the same width (sound modulo 2^b)
        d[m] = k % (1 << b)
        if d[m] >= 1 << (b - 1):
            d[m] -= 1 << b
    r2 = T._from_terms(d)
    nested = [a for m in T._terms(r2) for a, e in m if a.op == "app" and a.a[0] == "wrap" and a.a[2].a[0] >= b]
    if nested:
        mm = {}
        tot = []
        for m, k in T._terms(r2).items():
            t = Int(k)
            for a, e in m:
                if a in nested:
                    t = T.mul(t, T.power(a.a[1], e))
                else:
                    t = T.mul(t, T.power(a, e))
            tot.append(t)
        return wrapnode(T.add(*tot), b)
    if r2.op == "int":
        return Int(r2.a[0] & ((1 << b) - 1))
    atoms = {a for m in T._terms(r2) for a, e in m}
    if len(atoms) == 1:
        x, = atoms
        if x.op == "ite" and x.a[1].op == x.a[2].op == "int":
            return T.ite(x.a[0], *[Int(sum(k * y.a[0] ** sum(e for _, e in m) for m, k in T._terms(r2).items()) & ((1 << b) - 1)) for y in x.a[1:]])
    return App("wrap", r2, Int(b))


T.REBUILD_APP["wrap"] = wrapnode


def wrapping2(op):
    def f(c):
        t = numty(c)
        a, b = v(c, 0), v(c, 1)
        r = {"+": T.add, "-": T.sub, "*": T.mul}[op](a, b)
        if r.op == "int":
            return Int(wrap_const(r.a[0], t))
        return wrapnode(r, bits(t))
    return f


N_ = "core::num::"
M[N_ + "wrapping_add"] = wrapping2("+")
M[N_ + "wrapping_sub"] = wrapping2("-")
M[N_ + "wrapping_mul"] = wrapping2("*")
M[N_ + "wrapping_neg"] = lambda c: wrapnode(T.neg(v(c, 0)), bits(numty(c)))


def overflowing(op):
    def f(c):
        t = numty(c)
        a, b = v(c, 0), v(c, 1)
        r = {"+": T.add, "-": T.sub, "*": T.mul}[op](a, b)
        w = wrapnode(r, bits(t))
        if r.op == "int":
            return T.Tuple(w, T.Bool(wrap_const(r.a[0], t) != r.a[0]))
        return T.Tuple(w, T.NOT(T.eq(w, r)) if False else _mk("bcond", (App("ovf", r, Int(bits(t))),)))
    return f


for n_, o_ in (("add", "+"), ("sub", "-"), ("mul", "*")):
    M[N_ + "overflowing_" + n_] = overflowing(o_)


def checked(op):
    def f(c):
        t = numty(c)
        a, b = v(c, 0), v(c, 1)
        r = {"+": T.add, "-": T.sub, "*": T.mul}[op](a, b)
        if r.op == "int":
            return T.Some(r) if wrap_const(r.a[0], t) == r.a[0] else T.NoneV()
        if op == "-" and not signed(t):
            return ite(T.lt(a, b), T.NoneV(), T.Some(r))
        return ite(_mk("bcond", (App("ovf", r, Int(bits(t))),)), T.NoneV(), T.Some(r))
    return f


for n_, o_ in (("add", "+"), ("sub", "-"), ("mul", "*")):
    M[N_ + "checked_" + n_] = checked(o_)


@model(N_ + "saturating_sub")
def _(c):
    a, b = v(c, 0), v(c, 1)
    return ite(T.lt(a, b), T.ZERO, T.sub(a, b))


M[N_ + "saturating_add"] = lambda c: T.add(v(c, 0), v(c, 1))
M[N_ + "pow"] = lambda c: (lambda a, b: App("pow2", b) if a is T.ONE and False else (intop("<<", T.ONE, b, ("prim", "u64")) if a.op == "int" and a.a[0] == 2 else mkpow(a, b)))(v(c, 0), v(c, 1))
M[N_ + "abs"] = M[N_ + "unsigned_abs"] = lambda c: Int(abs(v(c, 0).a[0])) if v(c, 0).op == "int" else App("abs", v(c, 0))


@model(N_ + "max_value", N_ + "min_value")
def _(c):
    t = c.retty
    b = bits(t)
    if c.name == "max_value":
        return Int((1 << (b - 1)) - 1 if signed(t) else (1 << b) - 1)
    return Int(-(1 << (b - 1)) if signed(t) else 0)


def bytefn(c):
    x = v(c, 0)
    t = numty(c) if c.name.startswith("to_") else c.retty
    n = bits(t) // 8
    if c.name == "to_le_bytes":
        if x.op == "int":
            return T.Arr([Int((x.a[0] >> (8 * i)) & 255) for i in range(n)])
        return App("le_bytes", x, Int(n))
    if c.name == "to_be_bytes":
        if x.op == "int":
            return T.Arr([Int((x.a[0] >> (8 * i)) & 255) for i in reversed(range(n))])
        return App("be_bytes", x, Int(n))
    if x.op == "app" and x.a[0] in ("le_bytes", "be_bytes") and x.a[0][:2] == c.name[5:7]:
        return x.a[1]
    if x.op == "arr" and all(e.op == "int" for e in x.a):
        bs = bytes(e.a[0] for e in x.a)
        return Int(int.from_bytes(bs, "little" if "_le_" in c.name else "big"))
    return App(c.name, x)


for n_ in ("to_le_bytes", "to_be_bytes", "from_le_bytes", "from_be_bytes"):
    M[N_ + n_] = bytefn
T_seqlen0 = T.seqlen


def _lenhook(x):
    return None


@model(N_ + "trailing_zeros", N_ + "leading_zeros", N_ + "count_ones", N_ + "next_power_of_two", N_ + "is_power_of_two", N_ + "reverse_bits", N_ + "rem_euclid", N_ + "div_ceil", N_ + "ilog2", N_ + "rotate_left")
def _(c):
    xs = vals(c)
    if all(x.op == "int" for x in xs):
        x = xs[0].a[0]
        b = bits(numty(c))
        if c.name == "leading_zeros":
            return Int(b - x.bit_length())
        if c.name == "trailing_zeros":
            return Int((x & -x).bit_length() - 1 if x else b)
        if c.name == "count_ones":
            return Int(bin(x).count("1"))
        if c.name == "next_power_of_two":
            return Int(1 << (x - 1).bit_length() if x > 1 else 1)
        if c.name == "is_power_of_two":
            return T.Bool(x > 0 and x & (x - 1) == 0)
        if c.name == "rem_euclid":
            return Int(x % xs[1].a[0])
        if c.name == "div_ceil":
            return Int(-(-x // xs[1].a[0]))
        if c.name == "ilog2":
            return Int(x.bit_length() - 1)
    t = numty(c)
    if not signed(t):
        if c.name == "rem_euclid":
            return intop("%", xs[0], xs[1], t)
        if c.name == "div_ceil":
            return intop("/", T.sub(T.add(xs[0], xs[1]), T.ONE), xs[1], t)
    r = App(c.name, *xs)
    return _mk("bcond", (r,)) if c.name.startswith("is_") else r


M[N_ + "is_multiple_of"] = lambda c: T.eq(intop("%", v(c, 0), v(c, 1), numty(c)), T.ZERO)
M[N_ + "abs_diff"] = lambda c: ite(T.lt(v(c, 0), v(c, 1)), T.sub(v(c, 1), v(c, 0)), T.sub(v(c, 0), v(c, 1)))
M[N_ + "checked_div"] = lambda c: ite(T.eq(v(c, 1), T.ZERO), T.NoneV(), T.Some(intop("/", v(c, 0), v(c, 1), numty(c)))) if not signed(numty(c)) else NotImplemented
M[N_ + "checked_rem"] = lambda c: ite(T.eq(v(c, 1), T.ZERO), T.NoneV(), T.Some(intop("%", v(c, 0), v(c, 1), numty(c)))) if not signed(numty(c)) else NotImplemented


# ------------------------------------------------------------------ subtle
def ct_some(x):
    if x.op == "app" and x.a[0] == "ctopt":
        return x.a[2]
    if x.op == "ite":
        return ite(x.a[0], ct_some(x.a[1]), ct_some(x.a[2]))
    return _mk("bcond", (App("ctsome", x),))


def ct_val(x):
    if x.op == "app" and x.a[0] == "ctopt":
        return x.a[1]
    if x.op == "ite":
        return ite(x.a[0], ct_val(x.a[1]), ct_val(x.a[2]))
    return App("ctval", x)


def CtOpt(val, cond):
    return App("ctopt", val, cond)


S_ = "subtle::"


@model(S_ + "new")
def _(c):
    return CtOpt(v(c, 0), c.it.tobool(v(c, 1)))


@model(S_ + "unwrap", S_ + "expect")
def _(c):
    x = v(c, 0)
    cd = ct_some(x)
    if cd is FALSE:
        return die(c, "ctunwrap")
    if cd is not TRUE:
        c.it.panics.append((c.act.fn.path, "ctunwrap", c.st.path + (T.NOT(cd),)))
    return ct_val(x)


M[S_ + "unwrap_or"] = lambda c: ite(ct_some(v(c, 0)), ct_val(v(c, 0)), v(c, 1))
M[S_ + "unwrap_or_else"] = lambda c: ite(ct_some(v(c, 0)), ct_val(v(c, 0)), cc(c, c.args[1], [], c.st))
M[S_ + "is_some"] = lambda c: ct_some(v(c, 0))
M[S_ + "is_none"] = lambda c: T.NOT(ct_some(v(c, 0)))
M[S_ + "map"] = lambda c: CtOpt(cc(c, c.args[1], [ct_val(v(c, 0))], c.st), ct_some(v(c, 0)))


@model(S_ + "and_then")
def _(c):
    x = v(c, 0)
    r = cc(c, c.args[1], [ct_val(x)], c.st)
    return CtOpt(ct_val(r), T.AND(ct_some(x), ct_some(r)))


@model(S_ + "or_else")
def _(c):
    x = v(c, 0)
    r = cc(c, c.args[1], [], c.st)
    return CtOpt(ite(ct_some(x), ct_val(x), ct_val(r)), T.OR(ct_some(x), ct_some(r)))


M[S_ + "unwrap_u8"] = lambda c: ite(c.it.tobool(v(c, 0)), T.ONE, T.ZERO)
M[S_ + "ConstantTimeEq::ct_eq"] = lambda c: NotImplemented if c.it.opts.get("open_cteq") else T.eq(v(c, 0), v(c, 1))
M[S_ + "ConditionallySelectable::conditional_select"] = lambda c: NotImplemented if c.it.opts.get("open_ctsel") else ite(c.it.tobool(v(c, 2)), v(c, 1), v(c, 0))


@model(S_ + "ConditionallySelectable::conditional_assign")
def _(c):
    a, b, ch = v(c, 0), v(c, 1), c.it.tobool(v(c, 2))
    setref(c, 0, ite(ch, b, a))
    return UNIT


@model(S_ + "ConditionallyNegatable::conditional_negate")
def _(c):
    a, ch = v(c, 0), c.it.tobool(v(c, 1))
    setref(c, 0, ite(ch, T.neg(a), a))
    return UNIT


# ------------------------------------------------------------------ ff / group / pasta
F_ = "ff::Field::"
M[F_ + "zero"] = lambda c: T.ZERO
M[F_ + "one"] = lambda c: T.ONE
M[F_ + "is_zero"] = M[F_ + "is_zero_vartime"] = lambda c: T.eq(v(c, 0), T.ZERO)
M[F_ + "square"] = lambda c: T.mul(v(c, 0), v(c, 0))
M[F_ + "cube"] = lambda c: T.power(v(c, 0), 3)
M[F_ + "double"] = lambda c: T.scale(v(c, 0), 2)


@model(F_ + "invert")
def _(c):
    x = v(c, 0)
    return CtOpt(T.inv(x), T.NOT(T.eq(x, T.ZERO)))


def exparg(x):
    if x.op == "arr":
        if all(e.op == "int" for e in x.a):
            return Int(sum(e.a[0] << (64 * i) for i, e in enumerate(x.a)))
        if all(e is T.ZERO for e in x.a[1:]):
            return x.a[0]
    return App("limbs", x)


@model(F_ + "pow_vartime", "pasta_curves::arithmetic::fields::FieldExt::pow", F_ + "pow")
def _(c):
    x = v(c, 0)
    e = exparg(v(c, 1))
    return mkpow(x, e)


M["pasta_curves::arithmetic::fields::FieldExt::from_u128"] = identv
G_ = "group::Group::"
M[G_ + "identity"] = M["group::prime::PrimeCurveAffine::identity"] = M["pasta_curves::arithmetic::Group::group_zero"] = M["group::cofactor::CofactorCurveAffine::identity"] = lambda c: T.ZERO
M[G_ + "is_identity"] = M["group::prime::PrimeCurveAffine::is_identity"] = lambda c: T.eq(v(c, 0), T.ZERO)
M[G_ + "double"] = lambda c: T.scale(v(c, 0), 2)
M[G_ + "generator"] = lambda c: T.Sym("G<" + tyname(c.targs[0]) + ">")
M["group::prime::PrimeCurveAffine::generator"] = M["group::cofactor::CofactorCurveAffine::generator"] = lambda c: T.Sym("G<" + tyname(c.targs[0]) + ">")


@model("group::Curve::batch_normalize")
def _(c):
    setref(c, 1, v(c, 0))
    return UNIT


@model("pasta_curves::arithmetic::Group::group_scale")
def _(c):
    setref(c, 0, T.mul(v(c, 0), v(c, 1)))
    return UNIT


@model("pasta_curves::arithmetic::Group::group_add")
def _(c):
    setref(c, 0, T.add(v(c, 0), v(c, 1)))
    return UNIT


@model("pasta_curves::arithmetic::Group::group_sub")
def _(c):
    setref(c, 0, T.sub(v(c, 0), v(c, 1)))
    return UNIT


@model("ff::batch::BatchInvert::batch_invert")
def _(c):
    it = IT.as_it(c.it, c.args[0], c.st)
    I = c.it

    def b(x, s):
        if x.op == "ref":
            w = I.deref(s, x)
            I.write_ref(s, x, App("inv0", w))
    IT.drive(I, it, b, c.st)
    return App("batchinv")


# ------------------------------------------------------------------ misc std
M["lazy_static::lazy::get"] = NotImplementedFn = lambda c: NotImplemented
M["core::str::contains"] = lambda c: _mk("bcond", (App("str_contains", v(c, 0), v(c, 1)),))
M["core::cell::new"] = M["core::cell::RefCell::new"] = identv
M["core::intrinsics::discriminant_value"] = lambda c: App("discr", v(c, 0))
M["core::marker::PhantomData"] = lambda c: UNIT
M["core::hash::Hash::hash"] = lambda c: NotImplemented
