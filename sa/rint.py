"""Random interpretation of normal forms (Gulwani & Necula, POPL 2003/2004: value numbering by random interpretation).

Two loop normal forms of different shape are not comparable structurally.  They are separated here by interpreting
the *terms* (never the program) in random finite models: uninterpreted symbols, fields and calls denote pseudo-random
values (the same in both terms), sequences have a small common length, ring operations are taken in a large prime
field, decisions and loops follow their defining equations.  A model in which the two terms denote different values
refutes their equality; agreement refutes nothing."""
import hashlib
from . import terms as T
from .terms import N

Q = (1 << 607) - 1
H2 = Q >> 1
CT = {"k": 0}


class Bad(Exception):
    pass


class Oob(Bad):
    """position outside a sequence"""


class Ls(tuple):
    __slots__ = ()


class Tp(tuple):
    __slots__ = ()


class Ad(tuple):      # (adt, variant, fields...)
    __slots__ = ()


class Tc(tuple):      # (base, events)
    __slots__ = ()


class Bg(tuple):
    __slots__ = ()


class Ev(tuple):
    __slots__ = ()


class Mp(tuple):      # sorted ((canonical key, key, value or None)...), a map or set built from empty
    __slots__ = ()


class Tag:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class Unknown:
    def __repr__(self):
        return "?"


UNK = Unknown()
OOB = Unknown()


def poison(v):
    raise (Oob if v is OOB else Bad)


LOOPB = {"seq": 0, "sum": 0, "prod": 0, "fold": 0, "lp": 0, "lp1": 0, "any": 0, "first": 0, "last": 0, "flat": 0}
NUMAPP = {"min", "max", "shr", "shl", "trunc", "wrap", "band", "bor", "bxor", "pow", "pow2", "div", "rem", "srem", "sdiv", "divceil", "b2i", "itrunc", "as_usize", "as_u64", "as_u32", "as_i32", "as_isize", "as_u128", "as_i64", "as_i128", "as_u8", "as_u16", "abs", "rem_euclid", "seqmax", "as_i16", "as_i8"}


def shape(n):
    if n.op == "sym":
        return n.a[0]
    if n.op == "fld":
        return ("fld", n.a[1])
    if n.op == "pay":
        return ("pay", n.a[1], n.a[2], shape(n.a[0]) if n.a[0].op in ("app", "sym", "fld", "idx") else "")
    if n.op == "app":
        return ("app", n.a[0])
    if n.op == "idx":
        return ("idx", shape(n.a[0]))
    if n.op == "out":
        return ("out", n.a[0])
    if n.op == "tr":
        return shape(n.a[0])
    return (n.op,)


class Marks:
    """which symbols stand for counts and positions (kept small) and which constants they are compared with"""

    def __init__(self, roots):
        from .diff import subnodes
        self.small = set()
        self.posn = set()
        self.cand = {}
        self.few = set()
        self.lv = set()
        self.start, self.bound = set(), set()   # shapes that only offset a count / that bound one
        self.maxpos = 0
        nodes = set()
        for r in roots:
            subnodes(r, nodes)
        self.nodes = nodes
        for x in nodes:
            if x.op in LOOPB:
                self.mark(x.a[0])
                self.signs(x.a[0])
            elif x.op == "idx":
                self.mark(x.a[1], self.posn)
            elif x.op == "rep":
                self.mark(x.a[1])
                self.signs(x.a[1])
            elif x.op == "sub":
                self.mark(x.a[1])
                self.mark(x.a[2])
                self.signs(x.a[2])
            elif x.op == "store":
                self.mark(x.a[1], self.posn)
                if x.a[1].op == "int" and x.a[1].a[0] < 200:
                    y = x.a[0]
                    while y.op in ("store", "tr"):
                        y = y.a[0]
                    if y.op in ("app", "sym", "fld"):
                        self.maxpos = max(self.maxpos, x.a[1].a[0] + 1)
            elif x.op == "lt0":
                self.mark(x.a[0])
                self.consts(x.a[0])
            elif x.op == "eq0":
                self.consts(x.a[0])
                self.fews(x.a[0])
            elif x.op == "eqc":
                if x.a[1].op == "int":
                    self.cands(x.a[0], x.a[1].a[0])
                else:
                    self.fews(x.a[0])
                    self.fews(x.a[1])
            elif x.op == "eq":
                self.fews(x.a[0])
                self.fews(x.a[1])
            elif x.op == "app" and x.a[0] in ("min", "max"):
                for y in x.a[1:]:
                    if y.op == "int":
                        for z in x.a[1:]:
                            self.cands(z, y.a[0])
            elif x.op == "app" and x.a[0] in ("shr", "shl", "pow", "resize", "pow2", "div", "rem", "divceil"):
                for y in (x.a[2:3] if x.a[0] != "pow2" else x.a[1:2]):
                    if y.__class__ is N:
                        self.mark(y)
        self.start |= self.posn
        self.start -= self.bound
        for _ in range(3):
            for x in nodes:
                if x.op == "fold":
                    lam = x.a[2]
                    if lam.op != "lam":
                        continue
                    top, k, body = lam.a
                    lv = [top - k + 2 + j for j in range(k - 1)]
                    for j, l in enumerate(lv):
                        if l in self.lv:
                            self.mark(x.a[1].a[j] if k > 2 and x.a[1].op == "tuple" and len(x.a[1].a) == k - 1 else x.a[1])
                            self.mark(body.a[j] if k > 2 and body.op == "tuple" and len(body.a) == k - 1 else body)

    def atoms(self, n, acc):
        if n.op == "poly":
            for m, c in n.a[0]:
                for x, e in m:
                    self.atoms(x, acc)
        elif n.op == "ite":
            self.atoms(n.a[1], acc)
            self.atoms(n.a[2], acc)
        elif n.op == "app" and n.a[0] in NUMAPP:
            for y in n.a[1:]:
                if y.__class__ is N:
                    self.atoms(y, acc)
        elif n.op == "b":
            self.lv.add(n.a[0])
        elif n.op in ("first", "last", "sum", "fold"):
            l = n.a[-1]
            if l.op == "lam":
                self.atoms(l.a[2], acc)
        elif n.op == "prj" and n.a[1].op == "fold":
            l = n.a[1].a[2]
            if l.op == "lam" and l.a[2].op == "tuple" and n.a[0] < len(l.a[2].a):
                self.atoms(l.a[2].a[n.a[0]], acc)
                i = n.a[1].a[1]
                self.atoms(i.a[n.a[0]] if i.op == "tuple" else i, acc)
        elif n.op not in ("int", "bool", "len"):
            acc.append(n)
        return acc

    def signs(self, n):
        if n.op == "poly":
            for m, c in n.a[0]:
                for x, e in m:
                    (self.bound if c > 0 else self.start).update(shape(y) for y in self.atoms(x, []))
        else:
            self.bound.update(shape(y) for y in self.atoms(n, []))

    def mark(self, n, to=None):
        for x in self.atoms(n, []):
            (self.small if to is None else to).add(shape(x))

    def fews(self, n):
        for x in self.atoms(n, []):
            self.few.add(shape(x))

    def cands(self, n, k):
        for x in self.atoms(n, []):
            self.cand.setdefault(shape(x), set()).update((k, k + 1, k - 1) if abs(k) < 1 << 40 else (k,))

    def consts(self, p):
        if p.op != "poly":
            return
        k = 0
        for m, c in p.a[0]:
            if m == ():
                k = c
        if len(p.a[0]) <= 2:
            for x in self.atoms(p, []):
                self.cand.setdefault(shape(x), set()).update(v for v in (-k, k, -k - 1, -k + 1) if 0 <= v < 1 << 40)


class Model:
    def __init__(self, marks, seed, alias=None, rev=None):
        self.mk = marks
        self.seed = seed
        self.mode = (0, 2, 1, 2)[seed % 4]
        self.L = (2 + (seed // 4) % 4) if self.mode == 0 else (1 + (seed // 4) % 4) if self.mode == 1 else max(8, marks.maxpos)
        self.reps = {}
        self.memo = {}
        self.rev = rev if rev is not None else {}
        self.alias = alias if alias is not None else {}
        self.steps = 0
        self.cov = None
        self.hm = {}
        self.prj = {}       # projections of opaque values already denoted (whatever the shape of the term was)
        self.wide = False   # numbers also take large and irregular values

    # ------------------------------------------------------------ pseudo-random denotations
    def h(self, *k):
        r = self.hm.get(k)
        if r is None:
            r = self.hm[k] = int.from_bytes(hashlib.blake2b(repr((self.seed, k)).encode(), digest_size=8).digest(), "big")
        return r

    def fresh(self, sh, *k):
        """number denoted by an uninterpreted term of this shape"""
        h = self.h(*k)
        small = sh in self.mk.small
        if self.wide and h % 3 == 0:
            g = h >> 8
            if small or sh in self.mk.posn:
                return (g >> 3) % (17, 40, 130)[g % 3]
            if g % 2:
                return (1 << 64) - 1 - (g >> 3) % (1 << (8, 40, 63)[g % 3])
        if not small and sh in self.mk.posn:
            return (h >> 8) % self.L
        if small and self.mode == 0:
            return (h >> 8) % self.L if sh in self.mk.start else self.L
        c = self.mk.cand.get(sh)
        if c and h % 8 < 5:
            c = sorted(c)
            return c[(h >> 8) % len(c)]
        if small:
            if self.mode == 1 and (h >> 4) % 3 == 0:
                return self.L
            if self.mode == 2 and (h >> 4) % 5 < 2:
                return self.L
            return (h >> 8) % (5 if self.mode == 1 else 4)
        if sh in self.mk.few and (h >> 5) % 2:
            return 1000003 + (h >> 8) % 2
        return h % (1 << 61) + 7

    def key(self, v):
        """hashable canonical form (eta-reduced)"""
        c = v.__class__
        if c is int or c is bool:
            return self.alias.get(v, v) if c is int and v > 1 << 20 else int(v) if c is bool else v
        if c is Ls:
            ks = tuple(self.key(x) for x in v)
            if ks:
                r = self.rev.get(ks[0]) if ks[0].__class__ is int else None
                if r is not None and r[0] == "idx" and r[2] == 0 and self.len(r[1]) == len(ks) and all(self.rev.get(k) == ("idx", r[1], j) for j, k in enumerate(ks) if k.__class__ is int) and all(k.__class__ is int for k in ks):
                    return r[1]
            return ("L",) + ks
        if c is Ad:
            ks = tuple(self.key(x) for x in v[2:])
            if ks and ks[0].__class__ is int:
                r = self.rev.get(ks[0])
                if r is not None and r[0] in ("fld", "pay"):
                    n = r[1]
                    nv = T.nvariants(v[0])
                    want = [("fld", n, T.fname(v[0], v[1], j)) if nv == 1 else ("pay", n, v[1], j) for j in range(len(ks))]
                    if [self.rev.get(k) if k.__class__ is int else None for k in ks] == want:
                        return n
            return ("A", v[0], v[1]) + ks
        if c is Tp:
            ks = tuple(self.key(x) for x in v)
            if ks and ks[0].__class__ is int:
                r = self.rev.get(ks[0])
                if r is not None and r[0] == "fld" and [self.rev.get(k) if k.__class__ is int else None for k in ks] == [("fld", r[1], "." + str(j)) for j in range(len(ks))]:
                    return r[1]
            return ("T",) + ks
        if c is Tc or c is Ev or c is Bg:
            return (c.__name__,) + tuple(self.key(x) if x.__class__ is not str else x for x in v)
        if c is Mp:
            return ("M",) + tuple((k, self.key(y)) for k, x, y in v)
        if c is tuple:
            return ("t",) + tuple(self.key(x) if x.__class__ is not str else x for x in v)
        if c is str or v is None:
            return ("s", v)
        if c is Unknown:
            poison(v)
        return ("o", repr(v))

    def bag(self, b, out):
        if not out:
            return b
        ks = sorted((self.key(e) for e in out), key=repr)
        gates = sorted({k for k in ks if k[1] == ("s", "gate") or k[1] == "gate"}, key=repr)
        return Bg((b, tuple(gates), tuple(k for k in ks if k not in gates)))

    def opaque(self, sh, *k):
        return self.fresh(sh, *[self.key(x) if x.__class__ is not str else x for x in k])

    # ------------------------------------------------------------ elimination forms on opaque values
    def len(self, v):
        if v.__class__ is Ls:
            return len(v)
        if v.__class__ is str:
            return len(v.encode())
        if v in self.reps:
            return self.reps[v][1]
        if v.__class__ is Tc:
            v = self.key(v)
        if v.__class__ is Unknown:
            poison(v)
        return self.L

    def at(self, v, i, sh):
        if v.__class__ is Ls:
            if not (i.__class__ is int and 0 <= i < len(v)):
                raise (Oob if i.__class__ is int else Bad)
            return v[i]
        if v.__class__ is Unknown:
            poison(v)
        k = self.key(v)
        if k in self.reps:
            return self.reps[k][0]
        i = self.key(i)
        r = self.prj.get(("idx", k, i))
        if r is not None:
            return r
        r = self.prj[("idx", k, i)] = self.fresh(sh, "idx", k, i)
        if k.__class__ is int and r > 1 << 20:
            self.rev.setdefault(r, ("idx", k, i))
        return r

    def items(self, v, sh=("idx", "")):
        if v.__class__ is Ls:
            return list(v)
        if self.len(v) > 600:
            raise Bad
        return [self.at(v, i, sh) for i in range(self.len(v))]

    def fld(self, v, name, sh):
        if v.__class__ is Ad:
            info = T.ADT_INFO.get(v[0])
            if info:
                for j, f in enumerate(info["variants"][v[1]]["fields"]):
                    if f[0] == name and 2 + j < len(v):
                        return v[2 + j]
            raise Bad
        if v.__class__ is Tp and name.startswith("."):
            j = int(name[1:])
            if j < len(v):
                return v[j]
            raise Bad
        if v.__class__ is Ls and name.startswith("."):
            return v[int(name[1:])]
        if v.__class__ is Unknown:
            poison(v)
        k = self.key(v)
        r = self.prj.get(("fld", k, name))
        if r is not None:
            return r
        r = self.prj[("fld", k, name)] = self.fresh(sh, "fld", k, name)
        if k.__class__ is int and r > 1 << 20:
            self.rev.setdefault(r, ("fld", k, name))
        return r

    def pay(self, v, vi, j, sh=("pay",)):
        k = self.key(v)
        r = self.prj.get(("pay", k, vi, j))
        if r is not None:
            return r
        r = self.prj[("pay", k, vi, j)] = self.fresh(sh, "pay", k, vi, j)
        if k.__class__ is int and r > 1 << 20:
            self.rev.setdefault(r, ("pay", k, vi, j))
        return r

    def variant(self, v, adt):
        if v.__class__ is Ad:
            return v[1]
        if v.__class__ is Unknown:
            poison(v)
        k = self.key(v)
        if k.__class__ is tuple and k[0] == "A":
            return k[2]
        n = T.nvariants(adt) or 2
        h = self.h("variant", k)
        if adt == T.RES:
            r = 0 if h % 10 < 9 else 1
        elif adt == T.OPT:
            r = 1 if h % 10 < 6 else 0
        else:
            r = h % n
        info = T.ADT_INFO.get(adt)
        if k.__class__ is int and k > 1 << 20 and (adt == T.OPT and r == 0 or info and not info["variants"][r]["fields"]):
            self.alias[k] = ("A", adt, r)
        return r

    # ------------------------------------------------------------ evaluation
    def ev(self, n, env):
        if n.fb:
            k = (n,) + tuple(self.mkey(env[l]) for l in sorted(n.fb))
        else:
            k = n
        r = self.memo.get(k)
        if r is None:
            self.steps += 1
            if self.steps > 60000:
                raise Budget
            try:
                r = self.ev0(n, env)
            except Oob:
                r = OOB
            except (Bad, OverflowError, ZeroDivisionError, IndexError, TypeError, ValueError, AttributeError):
                r = UNK
            if r.__class__ is int:
                if r > H2 or r < -H2:
                    r %= Q
                    if r > H2:
                        r -= Q
            self.memo[k] = r
            if self.cov is not None:
                if r.__class__ is bool:
                    self.cov.add((n, r))
                elif r.__class__ is not Unknown:
                    self.cov.add((n, None))
        return r

    def mkey(self, v):
        return v

    def num(self, v):
        if v.__class__ is int:
            return v
        if v.__class__ is bool:
            return int(v)
        if v.__class__ is Unknown:
            poison(v)
        k = self.key(v)
        if k.__class__ is int:
            return k
        return self.h("num", k) % (1 << 61) + 7

    def truth(self, v):
        if v.__class__ is bool:
            return v
        if v.__class__ is Unknown:
            poison(v)
        if v.__class__ is int and v in (0, 1):
            return bool(v)
        return bool(self.h("truth", self.key(v)) >> 3 & 1)

    def nums(self, n, env):
        return self.num(self.ev(n, env))

    def count(self, n, env, cap=600):
        if n is T.INF:
            return 70
        k = self.nums(n, env)
        if k > cap:
            raise Bad
        return max(k, 0)

    def lam(self, l, env, *args):
        top, k, body = l.a
        e = dict(env)
        for j in range(k):
            e[top - k + 1 + j] = args[j]
        return self.ev(body, e)

    def events(self, xs, env, cur, out):
        """append the events denoted by event nodes xs; cur(): the object's trace so far"""
        for x in xs:
            if x.op == "br":
                t = x.a[0]
                while t.op == "ite":
                    t = t.a[1] if self.truth(self.ev(t.a[0], env)) else t.a[2]
                self.events(t.a if t.op == "evs" else (t,), env, cur, out)
            elif x.op == "when":
                if self.truth(self.ev(x.a[0], env)):
                    self.events((x.a[1],), env, cur, out)
            elif x.op in ("lp", "lp1"):
                n = self.count(x.a[0], env)
                top, k, body = x.a[1].a
                for i in range(n):
                    e = dict(env)
                    e[top - k + 1] = i
                    if k > 1:
                        e[top] = cur(out)
                    b = body
                    while b.op == "ite":
                        b = b.a[1] if self.truth(self.ev(b.a[0], e)) else b.a[2]
                    self.events(b.a if b.op == "tuple" else (b,), e, cur, out)
            elif x.op == "ite":
                t = x
                while t.op == "ite":
                    t = t.a[1] if self.truth(self.ev(t.a[0], env)) else t.a[2]
                self.events(t.a if t.op in ("evs", "tuple") else (t,), env, cur, out)
            elif x.op == "evs":
                self.events(x.a, env, cur, out)
            elif x.op == "ev":
                if x.a[0] == "gate":
                    v = self.ev(x.a[1], env)
                    for g in (v if v.__class__ is Ls else (v,)):
                        out.append(Ev(("gate", abs(self.num(g)))))
                else:
                    vs = [self.ev(y, env) if y.__class__ is N else y for y in x.a[1:]]
                    if x.a[0] == "region":
                        # the order of assignments within a region does not matter
                        vs = [self.bag(y[0], y[1]) if y.__class__ is Tc else y for y in vs]
                    out.append(Ev((str(x.a[0]),) + tuple(vs)))
            else:
                raise Bad
        if len(out) > 4000:
            raise Budget

    def ev0(self, n, env):
        op, a = n.op, n.a
        if op == "int":
            return a[0]
        if op == "bool":
            return bool(a[0])
        if op == "str":
            return a[0]
        if op == "b":
            return env[a[0]]
        if op == "sym":
            if n is T.INF:
                return 70
            if a[0] == "emptymap":
                return Mp()
            return self.fresh(a[0], "sym", a[0])
        if op == "poly":
            s = 0
            for m, c in a[0]:
                t = c
                for x, e in m:
                    v = self.nums(x, env)
                    if e == 1:
                        t *= v
                    elif e > 0:
                        t *= pow(v, e, Q) if e > 8 else v ** e
                    else:
                        t *= pow(v, e, Q)
                s += t
            return s
        if op == "den":
            return self.nums(a[0], env)
        if op == "ite":
            while n.op == "ite":
                c = self.truth(self.ev(n.a[0], env))
                if self.cov is not None:
                    self.cov.add((n.a[0], c))
                n = n.a[1] if c else n.a[2]
            return self.ev(n, env)
        if op == "eqc" or op == "eq":
            return self.eqv(self.ev(a[0], env), self.ev(a[1], env))
        if op == "eq0":
            return self.nums(a[0], env) % Q == 0
        if op == "lt0":
            return self.nums(a[0], env) < 0
        if op == "bcond":
            return self.truth(self.ev(a[0], env))
        if op == "is":
            return self.variant(self.ev(a[0], env), a[1]) == a[2]
        if op == "adt":
            return Ad((a[0], a[1]) + tuple(self.ev(x, env) for x in a[2:]))
        if op == "tuple":
            return Tp(self.ev(x, env) for x in a)
        if op == "arr":
            return Ls(self.ev(x, env) for x in a)
        if op == "fld":
            return self.fld(self.ev(a[0], env), a[1], shape(n))
        if op == "pay":
            v = self.ev(a[0], env)
            if v.__class__ is Ad:
                if v[1] != a[1]:
                    raise Bad
                return v[2 + a[2]]
            if v.__class__ is Unknown:
                poison(v)
            return self.pay(v, a[1], a[2], shape(n))
        if op == "idx":
            return self.at(self.ev(a[0], env), self.ev(a[1], env), shape(n))
        if op == "len":
            return self.len(self.ev(a[0], env))
        if op == "seq":
            return Ls(self.lam(a[1], env, i) for i in range(self.count(a[0], env)))
        if op == "rep":
            k = self.count(a[1], env, 1 << 32)
            v = self.ev(a[0], env)
            if k <= 2100:
                return Ls([v] * k)
            r = self.fresh("", "rep", self.key(v), k)
            self.reps[r] = (v, k)
            return r
        if op == "cat":
            out = []
            for x in a:
                out += self.items(self.ev(x, env))
            return Ls(out)
        if op == "flat":
            out = []
            for i in range(self.count(a[0], env)):
                out += self.items(self.lam(a[1], env, i))
            return Ls(out)
        if op == "sub":
            v = self.ev(a[0], env)
            lo, hi = self.nums(a[1], env), self.nums(a[2], env)
            if v.__class__ is int and 0 <= lo <= hi < 600:
                return Ls(self.at(v, i, ("idx", shape(a[0]))) for i in range(lo, hi))
            xs = self.items(v)
            if not 0 <= lo <= hi <= len(xs):
                raise Oob
            return Ls(xs[lo:hi])
        if op == "rev":
            return Ls(self.items(self.ev(a[0], env))[::-1])
        if op == "store":
            xs = self.items(self.ev(a[0], env))
            i = self.nums(a[1], env)
            if not 0 <= i < len(xs):
                raise Oob
            xs[i] = self.ev(a[2], env)
            return Ls(xs)
        if op == "sum":
            return sum(self.num(self.lam(a[1], env, i)) for i in range(self.count(a[0], env)))
        if op == "prod":
            r = 1
            for i in range(self.count(a[0], env)):
                r = r * self.num(self.lam(a[1], env, i)) % Q
            return r if r <= H2 else r - Q
        if op == "fold":
            k = a[2].a[1]
            if k > 2:
                v = a[1]
                acc = tuple(self.ev(x, env) for x in v.a) if v.op == "tuple" else tuple(self.ev(v, env))
                for i in range(self.count(a[0], env)):
                    r = self.lam(a[2], env, i, *acc)
                    if r.__class__ is not Tp:
                        raise Bad
                    acc = tuple(r)
                return Tp(acc)
            acc = self.ev(a[1], env)
            for i in range(self.count(a[0], env)):
                acc = self.lam(a[2], env, i, acc)
            return acc
        if op == "prj":
            v = self.ev(a[1], env)
            if v.__class__ is Tp:
                return v[a[0]]
            raise Bad
        if op == "any":
            c = self.count(a[0], env)
            for i in range(c):
                if self.truth(self.lam(a[1], env, i)):
                    return True
            if a[0] is T.INF:
                raise Bad
            return False
        if op == "first":
            for i in range(self.count(a[0], env)):
                if self.truth(self.lam(a[1], env, i)):
                    return self.lam(a[2], env, i)
            raise Bad
        if op == "last":
            k = self.count(a[0], env)
            return self.lam(a[2], env, k - 1) if k else self.ev(a[1], env)
        if op == "tr":
            b = self.ev(a[0], env)
            if b.__class__ is Unknown:
                poison(b)
            pre = ()
            if b.__class__ is Tc:
                b, pre = b[0], b[1]
            out = list(pre)
            self.events(a[1], env, lambda o: Tc((b, tuple(o))) if o else b, out)
            for e in out:
                for y in e:
                    if y.__class__ is Unknown:
                        poison(y)
            return Tc((b, tuple(out))) if out else b
        if op == "bag":
            b = self.ev(a[0], env)
            out = []
            self.events(a[1], env, lambda o: b, out)
            return self.bag(b, out)
        if op == "alts":
            t = a[0]
            while t.op == "ite":
                c = self.truth(self.ev(t.a[0], env))
                if self.cov is not None:
                    self.cov.add((t.a[0], c))
                t = t.a[1] if c else t.a[2]
            if t.op != "tag":
                return self.ev(t, env)
            k = len(t.a)
            for x in a[1:]:
                if x.a[:k] == t.a:
                    if t.a[0] == "=store":
                        xs = self.items(self.ev(t.a[1], env))
                        i = self.nums(t.a[2], env)
                        if not 0 <= i < len(xs):
                            raise Oob
                        xs[i] = self.ev(x.a[3], env)
                        return Ls(xs)
                    if t.a[0] == "=cat":
                        out = []
                        for y in t.a[2:]:
                            out += self.items(self.ev(y, env))
                        return Ls(out + [self.ev(y, env) for y in x.a[k:]])
                    return Ad((t.a[0], t.a[1]) + tuple(self.ev(y, env) for y in x.a[k:]))
            raise Bad
        if op == "out":
            return self.opaque(shape(n), "out", str(a[0]), self.ev(a[1], env))
        if op == "app":
            return self.app(n, env)
        if op in ("bot", "top", "fv"):
            raise Bad
        if op == "diverge":
            return "diverge"
        if op == "anno":
            return "anno"
        if op == "thunk":
            return self.opaque(("thunk",), "thunk", self.ev(a[0], env))
        if op == "lam":
            # a function value: identified by its results on two probes
            return self.opaque(("lam",), "lam", Tp(self.lam(n, env, *[self.h("probe", j, q) for q in range(a[1])]) for j in range(2)))
        if op == "ev":
            return Ev((str(a[0]),) + tuple(self.ev(y, env) if y.__class__ is N else y for y in a[1:]))
        if any(y.__class__ is tuple for y in a):
            raise Bad
        return self.opaque((op,), op, *[self.ev(y, env) if y.__class__ is N else str(y) for y in a])

    def note(self, n, f, x):
        """how a numeric operation was exercised: which operand won, was anything cut off"""
        if f in ("min", "max"):
            w = (min if f == "min" else max)(x)
            for i, y in enumerate(x):
                if y == w and x.count(w) == 1:
                    self.cov.add((n, i))
        elif f in ("trunc", "wrap", "itrunc"):
            self.cov.add((n, 0 <= x[0] < 1 << x[1]))
        elif f in ("rem", "div", "rem_euclid", "divceil", "srem", "sdiv"):
            self.cov.add((n, 0 <= x[0] < x[1]))
        elif f == "shr":
            self.cov.add((n, not x[0] >> x[1]))

    def app(self, n, env):
        f = n.a[0]
        if f in ("min", "max", "shr", "shl", "trunc", "wrap", "itrunc", "band", "bor", "bxor", "pow", "pow2", "div", "rem", "srem", "sdiv", "divceil", "rem_euclid", "abs"):
            x = [self.nums(y, env) for y in n.a[1:]]
            if self.cov is not None:
                self.note(n, f, x)
            if f == "min":
                return min(x)
            if f == "max":
                return max(x)
            if f == "abs":
                return abs(x[0])
            if f in ("trunc", "wrap"):
                return x[0] % (1 << x[1])
            if f == "itrunc":
                r = x[0] % (1 << x[1])
                return r - (1 << x[1]) if r >> (x[1] - 1) else r
            if f == "shr":
                if not 0 <= x[1] < 600:
                    raise Bad
                return x[0] >> x[1]
            if f == "shl":
                if not 0 <= x[1] < 300:
                    raise Bad
                return x[0] << x[1]
            if f == "band":
                r = x[0]
                for y in x[1:]:
                    r &= y
                return r
            if f == "bor":
                r = x[0]
                for y in x[1:]:
                    r |= y
                return r
            if f == "bxor":
                r = x[0]
                for y in x[1:]:
                    r ^= y
                return r
            if f == "pow":
                return pow(x[0], x[1], Q)
            if f == "pow2":
                if not 0 <= x[0] < 300:
                    raise Bad
                return 1 << x[0]
            if f == "div":
                return x[0] // x[1]
            if f in ("rem", "rem_euclid"):
                return x[0] % x[1]
            if f == "divceil":
                return -(-x[0] // x[1])
            if f == "sdiv":
                q = abs(x[0]) // abs(x[1])
                return q if (x[0] < 0) == (x[1] < 0) else -q
            if f == "srem":
                r = abs(x[0]) % abs(x[1])
                return -r if x[0] < 0 else r
        if f == "inv0":
            x = self.nums(n.a[1], env)
            return pow(x, -1, Q) if x % Q else 0
        if f == "b2i":
            return int(self.truth(self.ev(n.a[1], env)))
        if f == "default":
            return self.fresh(("default",), "default")
        if f in ("as_usize", "as_u64", "as_u32", "as_i32", "as_isize", "as_u128", "as_i64", "as_i128"):
            v = self.ev(n.a[1], env)
            if v.__class__ in (int, bool):
                return int(v)
        xs = [self.ev(y, env) if y.__class__ is N else str(y) for y in n.a[1:]]
        if f == "pair":
            xs.sort(key=lambda v: repr(self.key(v)))
        if xs and xs[0].__class__ is Mp:
            r = self.mapop(f, xs)
            if r is not None:
                return r
        if f == "mapof" and xs[0].__class__ is Ls:
            m = Mp()
            for e in xs[0]:
                m = self.put(m, e[0], e[1]) if e.__class__ is Tp and len(e) == 2 else self.put(m, e, None)
            return m
        if f == "ltv":
            if all(x.__class__ is int for x in xs):
                return xs[0] < xs[1]
        if f in ("le_bytes", "be_bytes") and xs[0].__class__ is int and xs[0] >= 0 and xs[1] <= 64 and xs[0] < 1 << (8 * xs[1]):
            return Ls(xs[0].to_bytes(xs[1], "little" if f[0] == "l" else "big"))
        if f in ("from_le_bytes", "from_be_bytes") and xs[0].__class__ is Ls and all(x.__class__ is int and 0 <= x < 256 for x in xs[0]):
            return int.from_bytes(bytes(xs[0]), "little" if f[5] == "l" else "big")
        if f in ("vec_sort", "vec_sort_unstable") and len(xs) == 1:
            return Ls(sorted(self.items(xs[0]), key=lambda x: (0, x, "") if x.__class__ is int else (1, 0, repr(self.key(x)))))
        if f == "seqmax" and len(xs) == 1:
            l = self.items(xs[0])
            if not l:
                return Ad((T.OPT, 0))
            if all(x.__class__ is int for x in l):
                return Ad((T.OPT, 1, max(l)))
        if f == "resize" and len(xs) == 3:
            l = self.items(xs[0])
            k = self.num(xs[1])
            if k > 600:
                raise Bad
            return Ls(l[:k] + [xs[2]] * max(0, k - len(l)))
        return self.opaque(shape(n), "app", str(f), *xs)

    def put(self, m, k, v, keep=False):
        c = self.key(k)
        d = {e[0]: e for e in m}
        if not (keep and c in d):
            d[c] = (c, k, v)
        return Mp(sorted(d.values(), key=lambda e: (0, e[0], "") if e[0].__class__ is int else (1, 0, repr(e[0]))))

    def mapop(self, f, xs):
        m = xs[0]
        if f == "mapput":
            return self.put(m, xs[1], xs[2])
        if f == "setput":
            return self.put(m, xs[1], None)
        if f == "mapdefault":
            return self.put(m, xs[1], xs[2], True)
        if f == "mapdel":
            c = self.key(xs[1])
            return Mp(e for e in m if e[0] != c)
        if f == "maplen":
            return len(m)
        if f == "haskey":
            c = self.key(xs[1])
            return any(e[0] == c for e in m)
        if f == "mapget!":
            c = self.key(xs[1])
            for e in m:
                if e[0] == c:
                    return e[2]
            raise Bad
        if f == "mapgetopt":
            c = self.key(xs[1])
            for e in m:
                if e[0] == c:
                    return Ad((T.OPT, 1, e[2]))
            return Ad((T.OPT, 0))
        if f == "items":
            return Ls(e[1] if e[2] is None else Tp((e[1], e[2])) for e in m)
        if f == "keys":
            return Ls(e[1] for e in m)
        if f == "values":
            return Ls(e[2] for e in m)
        return None

    def eqv(self, x, y):
        return self.key(x) == self.key(y)


class Budget(Exception):
    pass


def differ(m, a, b):
    """definite disagreement of two denotations (components with unknown parts are skipped)"""
    if a.__class__ is Unknown or b.__class__ is Unknown:
        return "a position out of range" if b is OOB and not partial(a) else None
    ca, cb = a.__class__, b.__class__
    if ca is cb and ca in (Ls, Tp):
        if len(a) != len(b):
            return "length %d instead of %d" % (len(b), len(a))
        return next((d for d in (differ(m, x, y) for x, y in zip(a, b)) if d), None)
    if ca is Ad and cb is Ad:
        if a[:2] != b[:2]:
            return "%s instead of %s" % (vname(b), vname(a))
        return next((d for d in (differ(m, x, y) for x, y in zip(a[2:], b[2:])) if d), None)
    if ca is Tc and cb is Tc:
        d = differ(m, a[0], b[0])
        if d:
            return d
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if x[0] != y[0] or len(x) != len(y):
                return "step %d: %s instead of %s" % (i, y[0], x[0])
            d = next((d for d in (differ(m, u, v) for u, v in zip(x[1:], y[1:])) if d), None)
            if d:
                return "step %d (%s): %s" % (i, x[0], d)
        if len(a[1]) != len(b[1]):
            return "%d effects instead of %d" % (len(b[1]), len(a[1]))
        return None
    if {ca, cb} == {Ls, int}:
        l, o = (a, b) if ca is Ls else (b, a)
        try:
            return differ(m, Ls(m.items(o)), l)
        except Bad:
            return None
    try:
        ka, kb = m.key(a), m.key(b)
    except Bad:
        return None
    if ka == kb:
        return None
    if {ca, cb} & {Ad, Tp} and int in (ca, cb):
        # constructor against an opaque value: compare by projections
        s, o = (a, b) if ca in (Ad, Tp) else (b, a)
        try:
            if s.__class__ is Ad:
                if T.nvariants(s[0]) != 1:
                    if m.variant(o, s[0]) != s[1]:
                        return "different alternative"
                    ps = [m.pay(o, s[1], j) for j in range(len(s) - 2)]
                else:
                    ps = [m.fld(o, T.fname(s[0], s[1], j), ("fld", T.fname(s[0], s[1], j))) for j in range(len(s) - 2)]
                fs = s[2:]
            else:
                ps = [m.fld(o, "." + str(j), ("fld", "." + str(j))) for j in range(len(s))]
                fs = s
        except Bad:
            return None
        return next((d for d in (differ(m, x, y) if s is b else differ(m, y, x) for x, y in zip(ps, fs)) if d), None)
    return "different value"


def partial(a):
    if a.__class__ is Unknown:
        return True
    return isinstance(a, tuple) and any(partial(x) for x in a)


def vname(a):
    info = T.ADT_INFO.get(a[0])
    return info["variants"][a[1]]["name"] if info else str(a[1])


class Verdict:
    __slots__ = ("bad", "raw", "valid", "agree", "covered")

    def __init__(self):
        self.bad, self.raw, self.valid, self.agree, self.covered = [], [], 0, 0, False


def outcomes(n):
    """the ways a numeric operation has to be exercised before agreement means anything"""
    f = n.a[0]
    if f in ("min", "max"):
        return range(len(n.a) - 1)
    if f in ("trunc", "wrap", "itrunc", "rem", "div", "rem_euclid", "divceil", "srem", "sdiv"):
        return (True, False)
    if f == "shr":
        return (False,)
    return ()


def kids(n):
    out = []

    def go(t):
        for y in t:
            if y.__class__ is N:
                out.append(y)
            elif y.__class__ is tuple:
                go(y)
    go(n.a)
    return out


def separate(ref, cur, models=36, seed=0, coverage=False):
    """interpret both normal forms in random models.
    bad: refutations (in models where unrelated counts and lengths coincide, if there are such models); raw: all disagreements;
    covered: every decision in which the terms differ was taken both ways"""
    V = Verdict()
    ks = [k for k in ref if k in cur and ref[k] is not cur[k]]
    if not ks:
        return V
    mk = Marks([ref[k] for k in ks] + [cur[k] for k in ks])
    uni = [0, 0]
    seen = set()
    for s in range(4 * models):
        if V.valid >= models // 2 and s >= models:
            break
        alias, rev = {}, {}
        try:
            m = Model(mk, s + 1000 * seed, alias, rev)
            m.wide = coverage and s % 2 == 1
            for k in ks:
                m.ev(ref[k], {}), m.ev(cur[k], {})
            m = Model(mk, s + 1000 * seed, alias, rev)
            m.cov = set() if coverage else None
            m.wide = coverage and s % 2 == 1
            vs = [(k, m.ev(ref[k], {}), m.ev(cur[k], {})) for k in ks]
            for j, (k, x, y) in enumerate(vs):
                # order kept on one side only: it does not matter on either
                if x.__class__ is Bg and y.__class__ is Tc:
                    vs[j] = (k, x, m.bag(y[0], y[1]))
                elif y.__class__ is Bg and x.__class__ is Tc:
                    vs[j] = (k, m.bag(x[0], x[1]), y)
        except (Budget, RecursionError):
            continue
        known = [x for x in vs if x[1].__class__ is not Unknown and x[2] is not UNK]
        if not known:
            continue
        V.valid += 1
        uni[0] += m.mode == 0 and not any(partial(x) or partial(y) for _, x, y in known)
        d = next(((k, d) for k, d in ((k, differ(m, x, y)) for k, x, y in known) if d), None)
        if d:
            V.raw.append((s, d[0], d[1], m.L))
            uni[1] += m.mode == 0
            if not coverage and len(V.raw) > 5 and uni[1]:
                break
        else:
            if len(known) == len(ks) and not any(partial(x) or partial(y) for _, x, y in known):
                V.agree += 1
                if coverage:
                    seen |= m.cov
    V.bad = [] if uni[0] and not uni[1] else V.raw
    if coverage and not V.raw:
        from .diff import subnodes
        a, b = set(), set()
        for k in ks:
            subnodes(ref[k], a)
            subnodes(cur[k], b)
        cs = {x.a[0] for x in a ^ b if x.op == "ite"} | {x for x in a ^ b if x.op in T._BOOLOPS}
        new = a ^ b
        inner = [x for x in new if x.op not in ("lam", "ev", "evs", "br", "bool") and x.op not in T._BOOLOPS and not any(y in new for y in kids(x))]
        V.covered = all((x, None) in seen or (x, True) in seen or (x, False) in seen for x in inner) and all((c, True) in seen and (c, False) in seen for c in cs) and all((x, o) in seen for x in a ^ b if x.op == "app" for o in outcomes(x))
    return V


def impossible(c, models=160):
    """a condition that is false in every random interpretation"""
    mk = Marks([c])
    n = 0
    for s in range(models):
        try:
            v = Model(mk, s, {}, {}).ev(c, {})
        except (Budget, RecursionError):
            continue
        if v is True:
            return False
        n += v is False
    return n >= models // 2


def panics(rr, cc, models=48):
    """explicit checks (panic conditions) that disappeared or became stricter: -> [(what, model)]"""
    E, U, E2, U2 = rr["panics"].a[0], rr["unwraps"].a[0], cc["panics"].a[0], cc["unwraps"].a[0]
    if set(E) == set(E2):
        return []
    allc = list(E) + list(U) + list(E2) + list(U2)
    if sum(1 for _ in allc) > 120:
        return []
    mk = Marks(allc)
    lost, gain, n = [], [], 0
    for s in range(models):
        try:
            m = Model(mk, s, {}, {})

            def some(cs):
                u = False
                for c in cs:
                    v = m.ev(c, {})
                    if v is True:
                        return True
                    if v is not False:
                        u = True
                return None if u else False
            e, e2 = some(E), some(E2)
            if e is True and e2 is False and some(U2) is False:
                lost.append(s)
            if e2 is True and e is False and some(U) is False:
                gain.append(s)
            n += e is not None and e2 is not None
        except (Budget, RecursionError):
            continue
    out = []
    if len(lost) > 1:
        out.append("explicit check weakened: no longer panics in %d of %d random interpretations" % (len(lost), n))
    if len(gain) > 1 and len(set(E2)) == len(set(E)):
        out.append("explicit check strengthened: newly panics in %d of %d random interpretations" % (len(gain), n))
    return out
