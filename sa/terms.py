"""Hash-consed term language used by the abstract interpreter.

Every abstract value is an N node.  Structurally equal values are the same
object, so value-number equality is pointer equality.  Smart constructors keep
terms in normal form:

 * ring values are sparse polynomials over atoms (commutative ring, integer
   coefficients, atoms may have negative exponents once inverted);
 * conditionals are ordered decision diagrams (MTBDD) over atomic conditions;
 * binders (sequence maps, folds, sums) are named by height, so alpha-equivalent
   bodies are identical.
"""
import sys
sys.setrecursionlimit(200000)


class N:
    __slots__ = ("op", "a", "id", "h", "fv", "fb", "tops", "_c")

    def __repr__(self):
        return show(self, 6)


_tab = {}
_next = [0]
_rng = [None]     # set to a random.Random to permute the decision order (see refs.compare)
EMPTY = frozenset()


def _mk(op, a, unique=False):
    if not unique:
        k = (op, a)
        r = _tab.get(k)
        if r is not None:
            return r
    n = N()
    n.op = op
    n.a = a
    _next[0] += 1
    n.id = _next[0] if _rng[0] is None else (_rng[0].getrandbits(24) << 32) + _next[0]
    h = 0
    fv = EMPTY
    fb = EMPTY
    tops = False
    for x in a:
        if x.__class__ is N:
            if x.h > h:
                h = x.h
            if x.fv:
                fv = (fv | x.fv) if fv else x.fv
            if x.fb:
                fb = (fb | x.fb) if fb else x.fb
            if x.tops:
                tops = True
        elif x.__class__ is tuple:
            for y in _walk_tuple(x):
                if y.h > h:
                    h = y.h
                if y.fv:
                    fv = (fv | y.fv) if fv else y.fv
                if y.fb:
                    fb = (fb | y.fb) if fb else y.fb
                if y.tops:
                    tops = True
    if op == "lam":
        h = a[0] if a[0] > h else h
        fb = fb - frozenset(range(a[0] - a[1] + 1, a[0] + 1))
    if op == "b":
        fb = frozenset((a[0],))
    if op == "fv":
        fv = frozenset((n,))
    if op == "top":
        tops = True
    n.h = h
    n.fv = fv
    n.fb = fb
    n.tops = tops
    n._c = None
    if not unique:
        _tab[k] = n
    return n


def _walk_tuple(t):
    for y in t:
        if y.__class__ is N:
            yield y
        elif y.__class__ is tuple:
            yield from _walk_tuple(y)


# ---------------------------------------------------------------- basic nodes
def Int(v):
    return _mk("int", (int(v),))


TRUE = _mk("bool", (1,))
FALSE = _mk("bool", (0,))


def Bool(b):
    return TRUE if b else FALSE


def Str(s):
    return _mk("str", (s,))


def Sym(name):
    return _mk("sym", (name,))


def Tuple(*xs):
    return _mk("tuple", tuple(xs))


UNIT = Tuple()
_fresh = [0]


def Fresh(hint="v"):
    _fresh[0] += 1
    return _mk("fv", (hint, _fresh[0]))


def Top(why):
    """unknown value; never equal to another one"""
    return _mk("top", (why,), unique=True)


ZERO, ONE, MINUS1 = Int(0), Int(1), Int(-1)


def is_const(n):
    return n.op == "int"


# ---------------------------------------------------------------- polynomials
POLY_CAP = 6000


def _terms(n):
    """poly view: dict mono -> coeff ; mono = tuple of (atom, exp) sorted by atom.id"""
    if n.op == "int":
        return {(): n.a[0]} if n.a[0] else {}
    if n.op == "poly":
        return dict(n.a[0])
    return {((n, 1),): 1}


def _from_terms(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return Int(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return _mk("poly", (tuple(sorted(d.items(), key=_mkey)),))


def _mkey(mc):
    return tuple((a.id, e) for a, e in mc[0])


def add(*xs):
    d = None
    for x in xs:
        if x.op == "int" and x.a[0] == 0:
            continue
        t = _terms(x)
        if d is None:
            d = t
        else:
            for m, c in t.items():
                d[m] = d.get(m, 0) + c
    return _from_terms(d) if d is not None else ZERO


def scale(x, k):
    if k == 1:
        return x
    return _from_terms({m: c * k for m, c in _terms(x).items()})


def neg(x):
    return scale(x, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    while i < len(m1) and j < len(m2):
        a, e = m1[i]
        b, f = m2[j]
        if a is b:
            if e + f:
                out.append((a, e + f))
            i += 1
            j += 1
        elif a.id < b.id:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def _inv_poly_atoms(m):
    return [(a, e) for a, e in m if e < 0 and a.op == "den"]


def mul(a, b):
    if a.op == "int":
        if a.a[0] == 0:
            return ZERO
        return scale(b, a.a[0])
    if b.op == "int":
        return mul(b, a)
    ta, tb = _terms(a), _terms(b)
    if len(ta) * len(tb) > POLY_CAP:
        # too large to expand: keep the product of the two factors as an atom
        x, y = (a, b) if a.id < b.id else (b, a)
        return _mk("app", ("bigmul", x, y))
    d = {}
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    r = _from_terms(d)
    return r


def power(a, e):
    if e == 0:
        return ONE
    if e < 0:
        return power(inv(a), -e)
    r = None
    base = a
    if a.op not in ("poly", "int"):
        return _from_terms({((a, e),): 1})
    while e:
        if e & 1:
            r = base if r is None else mul(r, base)
        e >>= 1
        if e:
            base = mul(base, base)
    return r


def inv(a):
    """formal inverse (0 maps to itself is not modelled)"""
    if a.op == "int" and a.a[0] in (1, -1):
        return a
    t = _terms(a)
    if len(t) == 1:
        (m, c), = t.items()
        if abs(c) == 1:
            return _from_terms({tuple((x, -e) for x, e in m): c})
    # normalise sign
    d = _mk("den", (a,))
    return _from_terms({((d, -1),): 1})


# ---------------------------------------------------------------- booleans / decision diagrams
# A boolean is TRUE/FALSE, an atomic condition, or ite(cond, bool, bool).
# Any value may be ite(cond, value, value).  Order: cond.id ascending from root.
_ite_memo = {}
_res_memo = {}
ITE_CAP = [0]


def _topvar(n):
    if n.op == "ite":
        return n.a[0]
    return None


def _isbool_atom(n):
    return n.op not in ("bool", "ite")


def excl(c, d):
    """True if c true implies d false"""
    if c.op == "eqc" and d.op == "eqc":
        return c.a[0] is d.a[0] and c.a[1] is not d.a[1]
    if c.op == "is" and d.op == "is":
        return c.a[0] is d.a[0] and c.a[2] != d.a[2]
    return False


def restrict(f, v, val):
    """f with atomic condition v assumed to be val (decision spine only)"""
    if f is v:
        return TRUE if val else FALSE
    if f.op != "ite":
        if val and excl(v, f):
            return FALSE
        return f
    k = (f, v, val)
    r = _res_memo.get(k)
    if r is not None:
        return r
    c, a, b = f.a
    if c is v:
        r = restrict(a if val else b, v, val)
    elif val and excl(v, c):
        r = restrict(b, v, val)
    else:
        a2 = restrict(a, v, val)
        b2 = restrict(b, v, val)
        r = f if (a2 is a and b2 is b) else _ite_atom(c, a2, b2)
    _res_memo[k] = r
    return r


def _ite_atom(c, a, b):
    """ite with atomic condition c; result is ordered"""
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    a = restrict(a, c, True)
    b = restrict(b, c, False)
    if a is b:
        r = a
    elif a is TRUE and b is FALSE:
        r = c
    else:
        # find smallest condition among c, top(a), top(b) (a boolean atom leaf counts only as itself in bool context)
        v = c
        for x in (_bvar(a), _bvar(b)):
            if x is not None and x.id < v.id:
                v = x
        if v is c:
            r = b if c.op in ("eqc", "is") and b.op in ("ite", "eqc", "is") and restrict(b, c, True) is a else _mk("ite", (c, a, b))
        else:
            hi = _ite_atom2(restrict(c, v, True), restrict(a, v, True), restrict(b, v, True))
            lo = _ite_atom2(restrict(c, v, False), restrict(a, v, False), restrict(b, v, False))
            if hi is lo:
                r = hi
            elif hi is TRUE and lo is FALSE:
                r = v
            elif v.op in ("eqc", "is") and lo.op in ("ite", "eqc", "is") and restrict(lo, v, True) is hi:
                r = lo
            else:
                r = _mk("ite", (v, hi, lo))
    _ite_memo[k] = r
    return r


_BOOLOPS = {"eqc", "eq0", "eq", "lt0", "is", "any", "bcond"}


def _bvar(n):
    if n.op == "ite":
        return n.a[0]
    if n.op in _BOOLOPS:
        return n
    return None


def _ite_atom2(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return ite(c, a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "ite":
        # boolean structured condition
        v, t, e = c.a
        return _ite_atom(v, ite(t, a, b), ite(e, a, b))
    return _merge_ite(c, a, b)


def _merge_ite(c, a, b):
    # push into identical constructors so that joins keep structure
    if a.op == b.op:
        if a.op == "tuple" and len(a.a) == len(b.a) and a.a:
            return _mk("tuple", tuple(ite(c, x, y) for x, y in zip(a.a, b.a)))
        if a.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
            return Adt(a.a[0], a.a[1], [ite(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
        if a.op == "arr" and len(a.a) == len(b.a) and a.a:
            return _mk("arr", tuple(ite(c, x, y) for x, y in zip(a.a, b.a)))
        if a.op == "tr" and a.a[0] is b.a[0]:
            return _merge_tr(c, a, b)
        if a.op == "seq" and a.a[0] is b.a[0] and a.a[1].a[0] == b.a[1].a[0]:
            pass
    return _ite_atom(c, a, b)


def _merge_tr(c, a, b):
    return _ite_atom(c, a, b)


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(*cs):
    r = TRUE
    for c in reversed(cs):
        r = ite(c, r, FALSE)
    return r


def OR(*cs):
    r = FALSE
    for c in reversed(cs):
        r = ite(c, TRUE, r)
    return r


def _norm_sign(p):
    t = _terms(p)
    items = sorted(t.items(), key=_mkey)
    # leading = first non-constant monomial
    lead = None
    for m, c in items:
        if m != ():
            lead = c
            break
    if lead is not None and lead < 0:
        return neg(p)
    return p


NUMOPS = {"int", "poly"}


def asbool(v):
    return v if v.op in ("bool", "ite", "top") or v.op in _BOOLOPS else _mk("bcond", (v,))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "ite" and b.op in ("int", "bool", "str", "adt"):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == "ite" and a.op in ("int", "bool", "str", "adt"):
        return eq(b, a)
    if a.op == "bool":
        return asbool(b) if a is TRUE else NOT(asbool(b))
    if b.op == "bool":
        return asbool(a) if b is TRUE else NOT(asbool(a))
    if a.op == "int" and b.op == "int":
        return FALSE
    if a.op == "str" and b.op == "str":
        return FALSE
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        return AND(*[eq(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == "adt" and len(a.a) == 2:
        return is_variant(b, a.a[0], a.a[1], None)
    if b.op == "adt" and len(b.a) == 2:
        return is_variant(a, b.a[0], b.a[1], None)
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        return AND(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == "arr" and b.op == "arr" and len(a.a) == len(b.a):
        return AND(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op in NUMOPS or b.op in NUMOPS:
        d = _norm_sign(sub(a, b))
        if d.op == "int":
            return Bool(d.a[0] == 0)
        t = _terms(d)
        # x == const form
        if len(t) <= 2:
            nonc = [(m, c) for m, c in t.items() if m != ()]
            if len(nonc) == 1 and nonc[0][1] == 1 and len(nonc[0][0]) == 1 and nonc[0][0][0][1] == 1:
                x = nonc[0][0][0][0]
                k = -t.get((), 0)
                if k == 1 and x.op == "app" and x.a[0] == "band" and len(x.a) == 3 and ONE in x.a[1:]:
                    return NOT(_mk("eqc", (x, ZERO)))
                return _mk("eqc", (x, Int(k)))
        return _mk("eq0", (d,))
    if a.op == "str":
        a, b = b, a
    if b.op == "str":
        return _mk("eqc", (a, b))
    x, y = (a, b) if a.id < b.id else (b, a)
    return _mk("eq", (x, y))


def lt0(p):
    if p.op == "int":
        return Bool(p.a[0] < 0)
    if p.op == "ite":
        return ite(p.a[0], lt0(p.a[1]), lt0(p.a[2]))
    # canonical polarity:  p < 0   <=>  not (-p-1 < 0)
    t = _terms(p)
    items = sorted(t.items(), key=_mkey)
    lead = next((c for m, c in items if m != ()), None)
    if lead is not None and lead < 0:
        q = sub(neg(p), ONE)
        return NOT(_lt0_atom(q))
    return _lt0_atom(p)


def _lt0_atom(p):
    # unsigned knowledge: x < 0 is false ; x - 1 < 0  <=> x == 0 for lengths
    t = _terms(p)
    cst = t.get((), 0)
    nonc = [(m, c) for m, c in t.items() if m != ()]
    if all(c > 0 for _, c in nonc) and all(_nonneg(m) for m, _ in nonc):
        if cst >= 0:
            return FALSE
        if cst == -1 and len(nonc) == 1 and nonc[0][1] == 1 and len(nonc[0][0]) == 1 and nonc[0][0][0][1] == 1:
            return _mk("eqc", (nonc[0][0][0][0], ZERO))
    return _mk("lt0", (p,))


def _nonneg(m):
    return all(a.op in ("len", "uint") or (a.op == "app" and a.a[0] in ("uint",)) for a, e in m)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return NOT(lt(b, a))


# ---------------------------------------------------------------- aggregates
ADT_INFO = {}   # id -> {"variants":[{"name","fields":[(name,ty,vis)]}], "kind"}


def fname(adt, vi, i):
    info = ADT_INFO.get(adt)
    if info is None:
        return str(i)
    try:
        return info["variants"][vi]["fields"][i][0]
    except IndexError:
        return str(i)


def nvariants(adt):
    info = ADT_INFO.get(adt)
    return len(info["variants"]) if info else 0


FIXLEN = {}        # opaque value -> its length, where its type in the current analysis is a fixed-size array
TRANSPARENT = {}   # (adt, variant) -> function of fields: constructors erased in the current analysis


def Adt(adt, vi, fields):
    fields = tuple(fields)
    if TRANSPARENT:
        f = TRANSPARENT.get((adt, vi))
        if f is not None:
            return f(fields)
    # eta-reduce
    if fields and nvariants(adt) == 1:
        f0 = fields[0]
        if f0.op == "fld" and f0.a[1] == fname(adt, vi, 0):
            base = f0.a[0]
            if all(f.op == "fld" and f.a[0] is base and f.a[1] == fname(adt, vi, i) for i, f in enumerate(fields)):
                if len(fields) == len(ADT_INFO[adt]["variants"][0]["fields"]):
                    return base
    elif fields and fields[0].op == "pay":
        base = fields[0].a[0]
        if all(f.op == "pay" and f.a[0] is base and f.a[1] == vi and f.a[2] == i for i, f in enumerate(fields)):
            info = ADT_INFO.get(adt)
            if info and len(info["variants"][vi]["fields"]) == len(fields) and nvariants(adt) == 1:
                return base
    return _mk("adt", (adt, vi) + fields)


OPT = "core::option::Option"
RES = "core::result::Result"


def NoneV():
    return _mk("adt", (OPT, 0))


def Some(x):
    return _mk("adt", (OPT, 1, x))


def Ok(x):
    return _mk("adt", (RES, 0, x))


def Err(x):
    return _mk("adt", (RES, 1, x))


def is_variant(v, adt, vi, nv=None):
    if v.op == "adt":
        return Bool(v.a[1] == vi)
    if v.op == "ite":
        return ite(v.a[0], is_variant(v.a[1], adt, vi, nv), is_variant(v.a[2], adt, vi, nv))
    if v.op == "top":
        return _mk("bcond", (Top("variant of unknown"),))
    n = nv or nvariants(adt)
    if n == 1:
        return TRUE
    if n == 2 and adt == OPT:
        if vi == 0:
            return NOT(_mk("is", (v, adt, 1)))
    elif n == 2 and vi == 1:
        return NOT(_mk("is", (v, adt, 0)))
    elif 2 < n and vi == n - 1:
        return NOT(OR(*[_mk("is", (v, adt, k)) for k in range(n - 1)]))
    return _mk("is", (v, adt, vi))


def payload(v, adt, vi, i):
    if v.op == "adt":
        if v.a[1] == vi and len(v.a) > 2 + i:
            return v.a[2 + i]
        return Top("payload of other variant")
    if v.op == "ite":
        c, a, b = v.a
        ia, ib = is_variant(a, adt, vi), is_variant(b, adt, vi)
        if ia is FALSE:
            return payload(b, adt, vi, i)
        if ib is FALSE:
            return payload(a, adt, vi, i)
        return ite(c, payload(a, adt, vi, i), payload(b, adt, vi, i))
    if nvariants(adt) == 1:
        return field(v, adt, vi, i)
    return _mk("pay", (v, vi, i))


def field(v, adt, vi, i):
    if v.op == "adt":
        if len(v.a) > 2 + i:
            return v.a[2 + i]
        return Top("field")
    if v.op == "tuple":
        return v.a[i] if i < len(v.a) else Top("tuple field")
    if v.op == "arr" and adt is None:
        return v.a[i]
    if v.op == "ite":
        return ite(v.a[0], field(v.a[1], adt, vi, i), field(v.a[2], adt, vi, i))
    if v.op == "top":
        return v
    if adt is None:
        return _mk("fld", (v, "." + str(i)))
    return _mk("fld", (v, fname(adt, vi, i)))


def App(name, *args):
    return _mk("app", (name,) + tuple(args))


# ---------------------------------------------------------------- sequences
def Arr(xs):
    xs = tuple(xs)
    if xs and xs[0].op == "idx":
        x = xs[0].a[0]
        if x.op == "app" and x.a[0] in ("le_bytes", "be_bytes") and x.a[2] is Int(len(xs)) and all(y.op == "idx" and y.a[0] is x and y.a[1] is Int(i) for i, y in enumerate(xs)):
            return x
    return _mk("arr", xs)


def pack(xs):
    """array whose elements are consecutive elements of another sequence (runs of 8 and more) -> slices of it"""
    if len(xs) < 8:
        return Arr(xs)
    out, i, hit = [], 0, False
    while i < len(xs):
        x, j = xs[i], i + 1
        if x.op == "idx" and x.a[1].op == "int":
            v, k = x.a[0], x.a[1].a[0]
            while j < len(xs) and xs[j].op == "idx" and xs[j].a[0] is v and xs[j].a[1] is Int(k + j - i):
                j += 1
            if j - i >= 8:
                out.append(Slice(v, Int(k), Int(k + j - i)))
                hit = True
                i = j
                continue
        out.append(Arr(xs[i:j]))
        i = j
    return Cat(*out) if hit else Arr(xs)


def Lam(vars_, body):
    """bind fresh vars; named by height"""
    h = body.h
    m = {}
    bs = []
    for k, v in enumerate(vars_):
        b = _mk("b", (h + 1 + k,))
        m[v] = b
        bs.append(b)
    body2 = subst(body, m)
    return _mk("lam", (h + len(vars_), len(vars_), body2))


def apply_lam(l, *args):
    assert l.op == "lam", l
    top, k, body = l.a
    m = {}
    for j in range(k):
        m[_mk("b", (top - k + 1 + j,))] = args[j]
    return subst_b(body, m)


def Seq(n, lam):
    """symbolic sequence of n elements; lam: index -> element"""
    if n.op == "int" and 0 <= n.a[0] <= 64:
        return Arr([apply_lam(lam, Int(i)) for i in range(n.a[0])])
    # eta: seq(len(x), \i. x[i]) = x
    body = lam.a[2]
    if body.op == "idx" and body.a[1].op == "b" and body.a[1].a[0] == lam.a[0] and lam.a[1] == 1:
        base = body.a[0]
        if not _has_b(base, lam.a[0]) and seqlen(base) is n:
            return base
    return _mk("seq", (n, lam))


def _has_b(n, lvl):
    return lvl in n.fb


def seqlen(v):
    if v.op == "arr":
        return Int(len(v.a))
    if v.op == "seq":
        return v.a[0]
    if v.op == "str":
        return Int(len(v.a[0].encode()))
    if v.op == "cat":
        return add(*[seqlen(x) for x in v.a])
    if v.op in ("store", "upd"):
        return seqlen(v.a[0])
    if v.op == "rep":
        return v.a[1]
    if v.op == "sub":
        return sub(v.a[2], v.a[1])
    if v.op == "rev":
        return seqlen(v.a[0])
    if v.op == "ite":
        return ite(v.a[0], seqlen(v.a[1]), seqlen(v.a[2]))
    if v.op == "top":
        return v
    if v.op == "app" and v.a[0] in ("le_bytes", "be_bytes"):
        return v.a[2]
    n = FIXLEN.get(v)
    return n if n is not None else _mk("len", (v,))


def idx(v, i):
    if v.op == "arr":
        if i.op == "int":
            k = i.a[0]
            return v.a[k] if 0 <= k < len(v.a) else Top("index out of range")
        if len(v.a) and all(x is v.a[0] for x in v.a):
            return v.a[0]
    elif v.op == "seq":
        return apply_lam(v.a[1], i)
    elif v.op == "rep":
        return v.a[0]
    elif v.op == "rev":
        return idx(v.a[0], sub(sub(seqlen(v.a[0]), ONE), i))
    elif v.op == "sub":
        return idx(v.a[0], add(v.a[1], i))
    elif v.op == "store":
        if v.a[1] is i:
            return v.a[2]
        d = sub(v.a[1], i)
        if d.op == "int":
            return idx(v.a[0], i)
        return ite(eq(v.a[1], i), v.a[2], idx(v.a[0], i))
    elif v.op == "cat":
        off = ZERO
        if i.op == "int":
            for p in v.a:
                n = seqlen(p)
                d = sub(i, off)
                if n.op != "int" or d.op != "int":
                    # symbolic piece: index inside if provably smaller (not known)
                    break
                if d.a[0] < n.a[0]:
                    return idx(p, d)
                off = add(off, n)
            else:
                return Top("index out of range")
            if off.op == "int" and off.a[0] == i.a[0] and False:
                pass
        # drop concrete prefix if i = off + nonneg symbolic
        if i.op == "poly" or i.op in ("b", "fv", "len"):
            t = _terms(i)
            cst = t.get((), 0)
            p0 = v.a[0]
            n0 = seqlen(p0)
            if n0.op == "int" and cst >= n0.a[0] and all(c > 0 for m, c in t.items()):
                return idx(Cat(*v.a[1:]), sub(i, n0))
            if n0.op == "len" or n0.op == "poly":
                # i - n0 constant nonneg ?
                d = sub(i, n0)
                if d.op == "int" and d.a[0] >= 0:
                    return idx(Cat(*v.a[1:]), d)
                td = _terms(d)
                if all(c > 0 for m, c in td.items()) and all(_idxlike(m) for m in td):
                    return idx(Cat(*v.a[1:]), d)
    elif v.op == "ite":
        return ite(v.a[0], idx(v.a[1], i), idx(v.a[2], i))
    elif v.op == "top":
        return v
    return _mk("idx", (v, i))


def _idxlike(m):
    return all(a.op in ("b", "fv", "len") for a, e in m)


def Cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat":
            parts = x.a
        else:
            parts = (x,)
        for p in parts:
            if p.op == "arr" and not p.a:
                continue
            if out and out[-1].op == "arr" and p.op == "arr":
                out[-1] = Arr(out[-1].a + p.a)
            elif out and out[-1].op == "sub" and p.op == "sub" and out[-1].a[0] is p.a[0] and out[-1].a[2] is p.a[1]:
                out[-1] = Slice(p.a[0], out[-1].a[1], p.a[2])
            else:
                out.append(p)
    if not out:
        return Arr([])
    if len(out) == 1:
        return out[0]
    return _mk("cat", tuple(out))


def Store(v, i, x):
    if v.op == "arr" and i.op == "int" and 0 <= i.a[0] < len(v.a):
        xs = list(v.a)
        xs[i.a[0]] = x
        return Arr(xs)
    if v.op == "rep" and v.a[1].op == "int" and v.a[1].a[0] <= 4096 and i.op == "int" and 0 <= i.a[0] < v.a[1].a[0]:
        if v.a[1].a[0] <= 128:
            return Store(Arr([v.a[0]] * v.a[1].a[0]), i, x)
    if v.op == "store" and v.a[1] is i:
        return Store(v.a[0], i, x)
    if x.op == "idx" and x.a[0] is v and x.a[1] is i:
        return v
    if v.op == "store" and i.op == "int" and v.a[1].op == "int" and i.a[0] < v.a[1].a[0]:
        return _mk("store", (Store(v.a[0], i, x), v.a[1], v.a[2]))
    if v.op == "cat":
        # store into the first piece if index concrete and inside
        p0 = v.a[0]
        n0 = seqlen(p0)
        if i.op == "int" and n0.op == "int" and i.a[0] < n0.a[0]:
            return Cat(Store(p0, i, x), *v.a[1:])
    return _mk("store", (v, i, x))


def Slice(v, lo, hi):
    if hi is None:
        hi = seqlen(v)
    if lo is hi:
        return Arr([])
    if v.op == "sub":
        return Slice(v.a[0], add(v.a[1], lo), add(v.a[1], hi))
    if lo is ZERO and seqlen(v) is hi:
        return v
    if v.op == "arr" and lo.op == "int" and hi.op == "int":
        return Arr(v.a[lo.a[0]:hi.a[0]])
    if v.op == "ite":
        return ite(v.a[0], Slice(v.a[1], lo, hi), Slice(v.a[2], lo, hi))
    if v.op == "seq" and lo is ZERO:
        return Seq(hi, v.a[1])
    if v.op == "seq":
        f = Fresh("i")
        return Seq(sub(hi, lo), Lam([f], apply_lam(v.a[1], add(f, lo))))
    if v.op == "rep":
        return Rep(v.a[0], sub(hi, lo))
    if v.op == "cat":
        n0 = seqlen(v.a[0])
        if lo is ZERO and hi is n0:
            return v.a[0]
        d = sub(lo, n0)
        if d.op == "int" and d.a[0] >= 0:
            return Slice(Cat(*v.a[1:]), d, sub(hi, n0))
        d = sub(hi, n0)
        if lo.op == "int" and n0.op == "int" and lo.a[0] <= n0.a[0]:
            if hi.op == "int":
                if hi.a[0] <= n0.a[0]:
                    return Slice(v.a[0], lo, hi)
                return Cat(Slice(v.a[0], lo, n0), Slice(Cat(*v.a[1:]), ZERO, sub(hi, n0)))
            if hi is seqlen(v):
                return Cat(Slice(v.a[0], lo, n0), *v.a[1:])
    if v.op == "top":
        return v
    if v.op == "arr" and v.a and all(x is v.a[0] for x in v.a):
        return Rep(v.a[0], sub(hi, lo))
    if hi is not lo and sub(hi, lo) is ONE:
        return Arr([idx(v, lo)])
    return _mk("sub", (v, lo, hi))


def Rep(x, n):
    if n.op == "int" and n.a[0] <= 64:
        return Arr([x] * n.a[0])
    return _mk("rep", (x, n))


def Rev(v):
    if v.op == "arr":
        return Arr(tuple(reversed(v.a)))
    if v.op == "rev":
        return v.a[0]
    if v.op == "cat":
        return Cat(*[Rev(x) for x in reversed(v.a)])
    if v.op == "rep":
        return v
    n = seqlen(v)
    f = Fresh("i")
    return Seq(n, Lam([f], idx(v, sub(sub(n, ONE), f))))


def MIN(a, b):
    if a is b:
        return a
    if a is INF:
        return b
    if b is INF:
        return a
    d = sub(a, b)
    if d.op == "int":
        return a if d.a[0] <= 0 else b
    xs = []
    for x in (a, b):
        if x.op == "app" and x.a[0] == "min":
            xs.extend(x.a[1:])
        else:
            xs.append(x)
    xs = sorted(set(xs), key=lambda n: n.id)
    return _mk("app", ("min",) + tuple(xs)) if len(xs) > 1 else xs[0]


def MAX(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == "int":
        return a if d.a[0] >= 0 else b
    xs = []
    for x in (a, b):
        if x.op == "app" and x.a[0] == "max":
            xs.extend(x.a[1:])
        else:
            xs.append(x)
    xs = sorted(set(xs), key=lambda n: n.id)
    return _mk("app", ("max",) + tuple(xs)) if len(xs) > 1 else xs[0]


INF = Sym("∞")


# ---------------------------------------------------------------- folds
def Sum(n, lam):
    if n.op == "int" and n.a[0] <= 64:
        return add(*[apply_lam(lam, Int(i)) for i in range(n.a[0])]) if n.a[0] > 0 else ZERO
    fs, body = _open(lam)
    i = fs[0]
    out = []
    for m, c in _terms(body).items():
        dep = tuple((a, e) for a, e in m if i in a.fv)
        ind = tuple((a, e) for a, e in m if i not in a.fv)
        coef = _from_terms({ind: c})
        if not dep:
            out.append(mul(coef, n))
        else:
            out.append(mul(coef, _mk("sum", (n, Lam([i], _from_terms({dep: 1}))))))
    return add(*out) if out else ZERO


def Fold(n, init, lam):
    """lam: (i, acc) -> acc'   acc is a tuple for several carried values"""
    return _mk("fold", (n, init, lam))


# ---------------------------------------------------------------- substitution / rebuild
def rebuild(op, a):
    if op == "poly":
        # a[0] = ((mono,coeff)...)
        acc = []
        for m, c in a[0]:
            t = Int(c)
            for x, e in m:
                t = mul(t, _pow_atom(x, e))
            acc.append(t)
        return add(*acc)
    if op == "den":
        return inv(inv(a[0])) if False else _mk("den", a)
    if op == "ite":
        return ite(a[0], a[1], a[2])
    if op == "idx":
        return idx(a[0], a[1])
    if op == "len":
        return seqlen(a[0])
    if op == "fld":
        return _refield(a[0], a[1])
    if op == "pay":
        return _repay(a[0], a[1], a[2])
    if op == "is":
        return is_variant(a[0], a[1], a[2])
    if op == "eq":
        return eq(a[0], a[1])
    if op == "eqc":
        return eq(a[0], a[1])
    if op == "eq0":
        return eq(a[0], ZERO)
    if op == "lt0":
        return lt0(a[0])
    if op == "seq":
        return Seq(a[0], a[1])
    if op == "sum":
        return Sum(a[0], a[1])
    if op == "cat":
        return Cat(*a)
    if op == "arr":
        return pack(a)
    if op == "store":
        return Store(*a)
    if op == "sub":
        return Slice(*a)
    if op == "rep":
        return Rep(*a)
    if op == "app":
        f = REBUILD_APP.get(a[0])
        if f:
            return f(*a[1:])
        return _mk("app", a)
    if op == "adt":
        return Adt(a[0], a[1], a[2:])
    if op == "tr":
        return Tr(a[0], a[1])
    if op == "bag":
        return Bag(a[0], a[1])
    if op == "when":
        return When(a[0], a[1])
    return _mk(op, a)


REBUILD_APP = {
    "min": lambda *xs: _fold_bin(MIN, xs),
    "max": lambda *xs: _fold_bin(MAX, xs),
    "bigmul": lambda a, b: mul(a, b),
    "pair": lambda a, b: App("pair", *sorted((a, b), key=lambda n: n.id)),
}


def _fold_bin(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def _pow_atom(x, e):
    if x.op == "den" and e < 0:
        return power(inv(x.a[0]), -e)
    return power(x, e)


def _refield(v, name):
    if v.op == "adt":
        info = ADT_INFO.get(v.a[0])
        if info:
            for i, f in enumerate(info["variants"][v.a[1]]["fields"]):
                if f[0] == name:
                    return v.a[2 + i]
        if name.isdigit() and len(v.a) > 2 + int(name):
            return v.a[2 + int(name)]
    if v.op == "tuple" and name.startswith("."):
        return v.a[int(name[1:])]
    if v.op == "ite":
        return ite(v.a[0], _refield(v.a[1], name), _refield(v.a[2], name))
    return _mk("fld", (v, name))


def _repay(v, vi, i):
    if v.op == "adt":
        if v.a[1] == vi:
            return v.a[2 + i]
        return Top("payload of other variant")
    if v.op == "ite":
        c, a, b = v.a
        oka = not (a.op == "adt" and a.a[1] != vi)
        okb = not (b.op == "adt" and b.a[1] != vi)
        if not oka:
            return _repay(b, vi, i)
        if not okb:
            return _repay(a, vi, i)
        return ite(c, _repay(a, vi, i), _repay(b, vi, i))
    return _mk("pay", (v, vi, i))


def _sub_tuple(t, f):
    out = []
    ch = False
    for y in t:
        if y.__class__ is N:
            z = f(y)
        elif y.__class__ is tuple:
            z = _sub_tuple(y, f)
        else:
            z = y
        if z is not y:
            ch = True
        out.append(z)
    return tuple(out) if ch else t


def _open(l):
    top, k, body = l.a
    fs = [Fresh("r") for _ in range(k)]
    return fs, subst_b(body, {_mk("b", (top - k + 1 + j,)): fs[j] for j in range(k)})


def subst(n, m):
    """replace nodes keyed in m (fresh variables); binders are opened before descending"""
    keys = frozenset(m.keys())
    vfb = frozenset().union(*[v.fb for v in m.values()])
    memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "lam":
            top, k, b0 = x.a
            nb = go(b0) if not any(top - k < l <= top for l in vfb) else None
            if nb is not None and nb.h == top - k:
                r = x if nb is b0 else _mk("lam", (top, k, nb))
            else:
                fs, body = _open(x)
                r = Lam(fs, go(body))
        else:
            a = _sub_tuple(x.a, go)
            r = x if a is x.a else (_mk(x.op, a) if x.op in ("clo", "it") else rebuild(x.op, a))
        memo[x] = r
        return r
    return go(n)


def subst_b(n, m):
    """replace free bound-variable nodes keyed in m (b-node -> N)"""
    levels = frozenset(b.a[0] for b in m)
    vfb = frozenset().union(*[v.fb for v in m.values()])
    memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if not (x.fb & levels):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "lam":
            top, k, b0 = x.a
            nb = go(b0) if not any(top - k < l <= top for l in vfb) else None
            if nb is not None and nb.h == top - k:
                r = x if nb is b0 else _mk("lam", (top, k, nb))
            else:
                fs, body = _open(x)
                r = Lam(fs, go(body))
        else:
            a = _sub_tuple(x.a, go)
            r = x if a is x.a else (_mk(x.op, a) if x.op in ("clo", "it") else rebuild(x.op, a))
        memo[x] = r
        return r
    return go(n)


# ---------------------------------------------------------------- traces of effects on an object
def Ev(name, *args):
    return _mk("ev", (name,) + tuple(args))


def Tr(base, evs):
    evs = tuple(evs)
    if base.op == "tr":
        return Tr(base.a[0], base.a[1] + evs)
    if not evs:
        return base
    return _mk("tr", (base, evs))


def tr_split(v):
    if v.op == "tr":
        return v.a[0], v.a[1]
    return v, ()


def tr_leaves(v, acc):
    if v.op == "ite":
        tr_leaves(v.a[1], acc)
        tr_leaves(v.a[2], acc)
    else:
        acc.append(v)
    return acc


def tr_norm(v):
    """ite over traces with a common base -> common prefix + one branch event holding the decision tree of the rests"""
    if v.op != "ite":
        return v
    ls = tr_leaves(v, [])
    sp = {l: tr_split(l) for l in ls}
    b = sp[ls[0]][0]
    if any(x[0] is not b for x in sp.values()):
        return v
    e0 = sp[ls[0]][1]
    k = len(e0)
    for _, e in sp.values():
        n = 0
        while n < k and n < len(e) and e[n] is e0[n]:
            n += 1
        k = n
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "ite":
                r = _ite_atom2(x.a[0], go(x.a[1]), go(x.a[2]))
            else:
                r = _mk("evs", sp[x][1][k:])
            memo[x] = r
        return r
    t = go(v)
    if t.op == "evs":
        return Tr(b, e0[:k] + t.a)
    return Tr(b, e0[:k] + (_mk("br", (t,)),))


def Br(t):
    if t.op == "evs":
        return t.a[0] if len(t.a) == 1 else _mk("br", (t,))
    return _mk("br", (t,))


# ---------------------------------------------------------------- display / serialisation
def show(n, depth=4):
    if n.__class__ is not N:
        return repr(n)
    if n.op == "int":
        v = n.a[0]
        return str(v) if abs(v) < 1 << 70 else hex(v)
    if n.op == "bool":
        return "true" if n.a[0] else "false"
    if n.op == "str":
        return repr(n.a[0])
    if n.op in ("sym",):
        return n.a[0]
    if n.op == "b":
        return "#%d" % n.a[0]
    if n.op == "fv":
        return "%s~%d" % n.a
    if depth <= 0:
        return "…"
    d = depth - 1
    if n.op == "poly":
        out = []
        for m, c in n.a[0][:12]:
            fs = [show(a, d) + ("^%d" % e if e != 1 else "") for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        if len(n.a[0]) > 12:
            out.append("…(%d monomials)" % len(n.a[0]))
        return "(" + " + ".join(out) + ")"
    if n.op == "fld":
        return show(n.a[0], d) + "." + n.a[1].lstrip(".")
    if n.op == "pay":
        return "%s!%d.%d" % (show(n.a[0], d), n.a[1], n.a[2])
    if n.op == "idx":
        return "%s[%s]" % (show(n.a[0], d), show(n.a[1], d))
    if n.op == "len":
        return "len(%s)" % show(n.a[0], d)
    if n.op == "app":
        return "%s(%s)" % (n.a[0], ", ".join(show(x, d) for x in n.a[1:]))
    if n.op == "adt":
        nm = n.a[0].split("::")[-1]
        info = ADT_INFO.get(n.a[0])
        if info and len(info["variants"]) > 1:
            nm += "::" + info["variants"][n.a[1]]["name"]
        return "%s{%s}" % (nm, ", ".join(show(x, d) for x in n.a[2:]))
    if n.op == "tuple":
        return "(" + ", ".join(show(x, d) for x in n.a) + ")"
    if n.op == "arr":
        return "[" + ", ".join(show(x, d) for x in n.a[:12]) + (", …" if len(n.a) > 12 else "") + "]"
    if n.op == "lam":
        return "λ%s. %s" % (",".join("#%d" % (n.a[0] - n.a[1] + 1 + j) for j in range(n.a[1])), show(n.a[2], d))
    if n.op == "ite":
        return "(%s ? %s : %s)" % tuple(show(x, d) for x in n.a)
    if n.op == "eqc":
        return "%s==%s" % (show(n.a[0], d), show(n.a[1], d))
    if n.op == "is":
        info = ADT_INFO.get(n.a[1])
        vn = info["variants"][n.a[2]]["name"] if info else str(n.a[2])
        return "%s is %s" % (show(n.a[0], d), vn)
    if n.op == "tr":
        return "%s⟨%s⟩" % (show(n.a[0], d), "; ".join(show(x, d) for x in n.a[1]))
    if n.op == "ev":
        return "%s(%s)" % (n.a[0], ", ".join(show(x, d) for x in n.a[1:]))
    return "%s(%s)" % (n.op, ", ".join(show(x, d) if x.__class__ is N else (str(x) if x.__class__ is not tuple else "<" + ", ".join(show(y, d) if y.__class__ is N else str(y) for y in x) + ">") for x in n.a))


def dump_dag(roots):
    """roots: dict name -> N.  Returns JSON-able list of nodes, children before parents."""
    num = {}
    out = []

    def enc(x):
        if x.__class__ is N:
            return {"n": go(x)}
        if x.__class__ is tuple:
            return [enc(y) for y in x]
        return x if not isinstance(x, int) or abs(x) < 1 << 60 else {"I": str(x)}

    def go(x):
        r = num.get(x)
        if r is not None:
            return r
        if x.op in ("clo", "it"):
            e = ["opaque", [x.op]]
        elif x.op == "top":
            e = ["top", [str(x.a[0])]]
        else:
            a = x.a
            if x.op == "poly":
                e = ["poly", [[[enc(c), [[enc(at), ex] for at, ex in m]] for m, c in a[0]]]]
            else:
                e = [x.op, [enc(y) for y in a]]
        r = len(out)
        num[x] = r
        out.append(e)
        return r
    rr = {k: go(v) for k, v in roots.items()}
    return {"nodes": out, "roots": rr}


def load_dag(j):
    ns = []

    def dec(y):
        if isinstance(y, dict):
            if "n" in y:
                return ns[y["n"]]
            return int(y["I"])
        if isinstance(y, list):
            return tuple(dec(z) for z in y)
        return y
    for op, a in j["nodes"]:
        if op == "top":
            ns.append(Top(a[0]))
            continue
        if op == "opaque":
            ns.append(Top("opaque " + a[0]))
            continue
        if op == "poly":
            items = []
            for c, m in a[0]:
                mono = tuple(sorted(((dec(at), ex) for at, ex in m), key=lambda t: t[0].id))
                items.append((mono, dec(c)))
            ns.append(_mk("poly", (tuple(sorted(items, key=_mkey)),)))
            continue
        aa = tuple(dec(y) for y in a)
        if op == "ite":
            ns.append(ite(*aa))
        elif op in ("eq", "eq0", "eqc", "lt0", "bag", "when"):
            ns.append(rebuild(op, aa))
        elif op == "app" and aa[0] in REBUILD_APP:
            ns.append(rebuild(op, aa))
        else:
            ns.append(_mk(op, aa))
    return {k: ns[i] for k, i in j["roots"].items()}


def renorm(n):
    """rebuild every node bottom-up until stable, so that equal terms built differently coincide"""
    for _ in range(4):
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x.op == "lam":
                top, k, b0 = x.a
                nb = go(b0)
                if nb.h == top - k:
                    r = x if nb is b0 else _mk("lam", (top, k, nb))
                else:
                    fs, body = _open(_mk("lam", (top, k, nb)))
                    r = Lam(fs, body)
            elif not x.a or x.op in ("clo", "it", "top", "fv", "b", "int", "sym", "bool", "str"):
                r = x
            else:
                a = _sub_tuple(x.a, go)
                r = rebuild(x.op, a)
            memo[x] = r
            return r
        m = go(n)
        if m is n:
            return n
        n = m
    return n


# ---------------------------------------------------------------- order-free traces
def Bag(base, evs):
    return _mk("bag", (base, tuple(sorted(evs, key=lambda n: n.id))))


def When(c, e):
    if c is TRUE:
        return e
    if e.op == "when":
        return When(AND(c, e.a[0]), e.a[1])
    return _mk("when", (c, e))


def _tree_paths(t, path, acc):
    if t.op == "ite":
        _tree_paths(t.a[1], path + (t.a[0],), acc)
        _tree_paths(t.a[2], path + (NOT(t.a[0]),), acc)
    else:
        acc.append((path, t))
    return acc


def _bag_events(evs):
    out = []
    for e in evs:
        if e.op == "br":
            cond = {}
            for path, leaf in _tree_paths(e.a[0], (), []):
                c = AND(*path)
                cnt = {}
                for x in _bag_events(leaf.a):
                    k = (x, cnt.get(x, 0))
                    cnt[x] = k[1] + 1
                    cond.setdefault(k, []).append(c)
            for (x, _), cs in cond.items():
                out.append(When(OR(*cs), x))
        elif e.op == "lp":
            fs, body = _open(e.a[1])
            for x in _bag_events(body.a):
                if len(fs) > 1 and fs[1] in x.fv:
                    out.append(_mk("lp", (e.a[0], Lam(fs, Tuple(x)))))
                else:
                    out.append(_mk("lp1", (e.a[0], Lam(fs[:1], x))))
        elif e.op == "ev":
            out.append(_mk("ev", tuple(bagify(x) if x.__class__ is N and x.op in ("tr", "ite") else x for x in e.a)))
        else:
            out.append(e)
    return out


def bagify(v):
    v = tr_norm(v)
    if v.op == "tr":
        return Bag(v.a[0], _bag_events(v.a[1]))
    return v


# ---------------------------------------------------------------- canonical sums of constructors
BOT = _mk("bot", ())


def _map_leaves(t, f, memo):
    r = memo.get(t)
    if r is None:
        if t.op == "ite":
            r = _ite_atom2(t.a[0], _map_leaves(t.a[1], f, memo), _map_leaves(t.a[2], f, memo))
        else:
            r = f(t)
        memo[t] = r
    return r


def _leafset(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == "ite":
        _leafset(t.a[1], acc, seen)
        _leafset(t.a[2], acc, seen)
    else:
        acc.append(t)


def constraints(evs):
    """constraint system events up to equivalence of the system they state: a gate is the set of its polynomials,
    each up to sign and integer content; the columns of a lookup may be permuted consistently"""
    out = []
    seen = set()

    def one(wrap, e):
        if e.op == "when":
            return one(lambda y: wrap(When(e.a[0], y)), e.a[1])
        if e.op == "ev" and e.a[0] == "gate" and e.a[1].op == "arr":
            for p in e.a[1].a:
                y = wrap(_mk("ev", ("gate", _primitive(p))))
                if y not in seen:
                    seen.add(y)
                    out.append(y)
            return
        if e.op == "ev" and e.a[0] == "gate":
            y = wrap(_mk("ev", ("gate", _primitive(e.a[1]))))
            if y not in seen:
                seen.add(y)
                out.append(y)
            return
        if e.op == "ev" and e.a[0] == "lookup" and e.a[1].op == "arr":
            e = _mk("ev", ("lookup", Arr(sorted(e.a[1].a, key=lambda n: n.id))))
        out.append(wrap(e))
    for e in evs:
        one(lambda y: y, e)
    return out


def _primitive(p):
    if p.op != "poly":
        return p
    import math
    t = _terms(p)
    g = 0
    for c in t.values():
        g = math.gcd(g, abs(c))
    if g > 1:
        p = _from_terms({m: c // g for m, c in t.items()})
    return _norm_sign(p)


def _subst_nodes(n, m, keys):
    memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "lam":
            fs, body = _open(x)
            r = Lam(fs, go(body))
        else:
            a = _sub_tuple(x.a, go)
            r = x if a is x.a else (_mk(x.op, a) if x.op in ("clo", "it") else rebuild(x.op, a))
        memo[x] = r
        return r
    return go(n)


def _replace(n, old, new):
    """replace a closed node"""
    memo = {old: new}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "lam":
            top, k, b0 = x.a
            nb = go(b0)
            if nb is b0:
                r = x
            elif nb.h == top - k:
                r = _mk("lam", (top, k, nb))
            else:
                fs, bd = _open(_mk("lam", (top, k, nb)))
                r = Lam(fs, bd)
        elif not x.a or x.op in ("clo", "it", "top", "fv", "b", "int", "sym", "bool", "str"):
            r = x
        else:
            a = _sub_tuple(x.a, go)
            r = x if a is x.a else rebuild(x.op, a)
        memo[x] = r
        return r
    return go(n)


IDXLOOPS = {"seq", "sum", "prod", "fold", "lp", "lp1", "any", "first", "last", "flat"}


def _bounds(p, i, n):
    """constant (lower, upper) bound of a polynomial linear in the loop index 0 <= i < n, or None"""
    t = _terms(p)
    k = 0
    for m, c in t.items():
        for a, e in m:
            if a is i:
                if m != ((i, 1),):
                    return None, None
                k = c
            elif i in a.fv:
                return None, None
    rest = sub(p, scale(i, k))
    top = scale(sub(n, ONE), k)
    lo, hi = (rest, add(rest, top)) if k > 0 else (add(rest, top), rest)
    return _constlow(lo), (lambda x: None if x is None else -x)(_constlow(neg(hi)))


def _constlow(p):
    t = _terms(p)
    for m, c in t.items():
        if m != () and not (c > 0 and _nonneg(m)):
            return None
    return t.get((), 0)


def loopfacts(n):
    """comparisons of a loop index decided or put in equality form from 0 <= index < bound"""
    memo = {}

    def body(lam, bound):
        fs, b = _open(lam)
        i = fs[0]
        rep = {}
        st, seen = [b], set()
        while st:
            x = st.pop()
            if x in seen or i not in x.fv:
                continue
            seen.add(x)
            if x.op in ("lt0", "eq0", "eqc"):
                y = atom(x, i, bound)
                if y is not None and y is not x:
                    rep[x] = y
            for y in x.a:
                if y.__class__ is N:
                    st.append(y)
                elif y.__class__ is tuple:
                    st.extend(_walk_tuple(y))
        if not rep:
            return lam
        return Lam(fs, _subst_nodes(b, rep, frozenset((i,))))

    def atom(x, i, bound):
        p = x.a[0] if x.op != "eqc" else (sub(x.a[0], x.a[1]) if x.a[1].op == "int" else None)
        if p is None:
            return None
        lo, hi = _bounds(p, i, bound)
        if x.op == "lt0":
            if lo is not None and lo >= 0:
                return FALSE
            if hi is not None and hi < 0:
                return TRUE
            if lo == -1:
                return eq(p, MINUS1)
            if hi == 0:
                return NOT(eq(p, ZERO))
        elif lo is not None and lo > 0 or hi is not None and hi < 0:
            return FALSE
        return None

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "lam":
            top, k, b0 = x.a
            nb = go(b0)
            if nb is b0:
                r = x
            elif nb.h == top - k:
                r = _mk("lam", (top, k, nb))
            else:
                fs, bd = _open(_mk("lam", (top, k, nb)))
                r = Lam(fs, bd)
        elif not x.a or x.op in ("clo", "it", "top", "fv", "b", "int", "sym", "bool", "str"):
            r = x
        else:
            a = _sub_tuple(x.a, go)
            if x.op == "ite" and a[0].op == "eqc" and a[0].a[1] is ZERO and a[0].a[0].op == "len":
                # a case split on an empty sequence that makes no difference
                y = a[0].a[0].a[0]
                if y.op not in ("b", "fv") and _replace(a[1], y, Arr([])) is _replace(a[2], y, Arr([])):
                    r = memo[x] = a[2]
                    return r
            if x.op == "ite" and a[0].op == "eq0" and a[1].op in ("cat", "flat", "sub", "rev") and a[2].op == "seq" and a[2].a[0] is a[0].a[0] and seqlen(a[1]) is a[2].a[0]:
                # both are empty there
                r = memo[x] = a[2]
                return r
            if x.op in IDXLOOPS:
                a = tuple(body(y, a[0]) if y.__class__ is N and y.op == "lam" else y for y in a)
            r = x if a is x.a or a == x.a else rebuild(x.op, a)
        memo[x] = r
        return r
    return go(n)


def _ctor(l):
    """constructor view of a leaf: (key, fields)"""
    if l.op == "adt":
        return (l.a[0], l.a[1]), l.a[2:]
    if l.op == "store":
        return ("=store", l.a[0], l.a[1]), (l.a[2],)
    if l.op == "cat" and l.a[-1].op == "arr":
        return ("=cat", len(l.a[-1].a)) + l.a[:-1], l.a[-1].a
    return None


def fold_order(f):
    """minimise and order the carried values of a loop: partition refinement over (initial value, update);
    values in one class are equal in every iteration, classes are ordered by their colour.
    -> (node, {old position: new position}) ; the node carries a single value if one class remains"""
    n, init, lam = f.a
    k = len(init.a)
    if k < 2 or lam.op != "lam" or lam.a[1] != k + 1 or lam.a[2].op != "tuple" or len(lam.a[2].a) != k:
        return f, None
    col = list(init.a)
    cls = 0
    body = lam.a[2].a
    top = lam.a[0]
    while True:
        d = sorted(set(col), key=lambda x: x.id)
        if len(d) == cls:
            break
        rank = [d.index(c) for c in col]
        if len(d) == k:
            break
        cls = len(d)
        m = {_mk("b", (top - k,)): Sym("§i")}
        for j in range(k):
            m[_mk("b", (top - k + 1 + j,))] = Sym("§c%d" % rank[j])
        col = [_mk("tuple", (Int(rank[j]), subst_b(body[j], m))) for j in range(k)]
    pm = dict(enumerate(rank))
    nc = max(rank) + 1
    if nc == k and all(pm[j] == j for j in pm):
        return f, None
    rep = [rank.index(t) for t in range(nc)]
    fs = [Fresh("r") for _ in range(1 + nc)]
    m = {_mk("b", (top - k,)): fs[0]}
    for j in range(k):
        m[_mk("b", (top - k + 1 + j,))] = fs[1 + rank[j]]
    if nc == 1:
        return _mk("fold", (n, init.a[0], Lam(fs, subst_b(body[0], m)))), {j: None for j in pm}
    return _mk("fold", (n, Tuple(*[init.a[j] for j in rep]), Lam(fs, Tuple(*[subst_b(body[j], m) for j in rep])))), pm


def canon(n):
    return loopfacts(_canon(loopfacts(n)))


def _canon(n):
    """decision trees over constructors -> tag tree + per-constructor field trees (independent of decision order)"""
    memo = {}
    perm = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "ite":
            r = tree(spine(x))
        elif x.op == "lam":
            top, k, b0 = x.a
            nb = go(b0)
            if nb.h == top - k:
                r = x if nb is b0 else _mk("lam", (top, k, nb))
            else:
                fs, body = _open(_mk("lam", (top, k, nb)))
                r = Lam(fs, body)
        elif not x.a or x.op in ("clo", "it", "top", "fv", "b", "int", "sym", "bool", "str"):
            r = x
        elif x.op == "poly":
            a = _sub_tuple(x.a, go)
            r = x if a is x.a else rebuild("poly", a)
        elif x.op == "bag":
            r = Bag(go(x.a[0]), constraints([go(e) for e in x.a[1]]))
        elif x.op == "prj" and x.a[1].op == "fold":
            f = go(x.a[1])
            k = perm[x.a[1]][x.a[0]] if x.a[1] in perm else x.a[0]
            r = f if k is None else _mk("prj", (k, f))
        elif x.op == "fold" and x.a[1].op == "tuple":
            f = _mk("fold", tuple(go(y) for y in x.a))
            r, pm = fold_order(f)
            if pm is not None:
                perm[x] = pm
        else:
            a = _sub_tuple(x.a, go)
            r = x if a is x.a else _mk(x.op, a) if x.op not in ("bag", "when") else rebuild(x.op, a)
        memo[x] = r
        return r

    def tree(t):
        """t: decision tree with canonical conditions and raw leaves"""
        if t.op != "ite":
            return go(t)
        ls = []
        _leafset(t, ls, set())
        tl = {len(l.a) for l in ls if l.op == "tuple"}
        if len(tl) == 1 and all(l.op in ("tuple", "bot") for l in ls) and tl != {0}:
            n = tl.pop()
            return _mk("tuple", tuple(tree(_map_leaves(t, lambda l: l.a[i] if l.op == "tuple" else BOT, {})) for i in range(n)))
        cs = {l: _ctor(l) for l in ls}
        one = {c[0] for c in cs.values() if c and c[0][0][0] != "=" and nvariants(c[0][0]) == 1 and len(c[1]) > 1}
        if len(one) == 1:
            k, = one
            for l in ls:
                if cs[l] is None and l.op in ("sym", "fld", "idx", "pay", "b", "fv", "prj"):
                    cs[l] = k, tuple(field(l, k[0], k[1], i) for i in range(len(ADT_INFO[k[0]]["variants"][0]["fields"])))
        ks = sorted({k for k, _ in filter(None, cs.values())}, key=lambda k: ([str(x) for x in k if x.__class__ is not N], [x.id for x in k if x.__class__ is N]))
        if not ks:
            return _map_leaves(t, go, {})
        tag = _map_leaves(t, lambda l: _mk("tag", tuple(go(y) if y.__class__ is N else y for y in cs[l][0])) if cs[l] else go(l), {})
        alts = []
        for k in ks:
            n = max(len(c[1]) for c in cs.values() if c and c[0] == k)
            fs = [tree(_map_leaves(t, lambda l: cs[l][1][i] if cs[l] and cs[l][0] == k else BOT, {})) for i in range(n)]
            k2 = tuple(go(y) if y.__class__ is N else y for y in k)
            if all(cs[l] or l is BOT for l in ls) and len(ks) == 1:
                if k[0] == "=store":
                    return _mk("store", (k2[1], k2[2], fs[0]))
                if k[0] == "=cat":
                    return _mk("cat", k2[2:] + (Arr(fs),))
                return _mk("adt", k + tuple(fs))
            alts.append(_mk("alt", k2 + tuple(fs)))
        return _mk("alts", (tag,) + tuple(alts))

    sm = {}

    def spine(x):
        r = sm.get(x)
        if r is None:
            r = _ite_atom2(go(x.a[0]), spine(x.a[1]), spine(x.a[2])) if x.op == "ite" else x
            sm[x] = r
        return r
    return go(n)
