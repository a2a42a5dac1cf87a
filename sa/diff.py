"""Localised comparison of two normal-form summaries.

Two normal forms that are the same node are equal.  When they differ, the difference is traced to the
smallest sub-terms; it counts as a definite behavioural difference only when those sub-terms are fully
understood on both sides (no unknown value, and no loop whose normal form is new and cannot be aligned)."""
from . import terms as T
from .terms import N

LOOPS = {"seq", "sum", "prod", "fold", "lp", "lp1", "any", "first", "last", "flat", "upd", "store", "foldwhile", "lam"}
MAXD = 400


def kids(x):
    for y in x.a:
        if y.__class__ is N:
            yield y
        elif y.__class__ is tuple:
            yield from T._walk_tuple(y)


def subnodes(x, acc=None):
    acc = set() if acc is None else acc
    st = [x]
    while st:
        y = st.pop()
        if y in acc:
            continue
        acc.add(y)
        st.extend(kids(y))
    return acc


class Differ:
    def __init__(self, ref_all, cur_all):
        self.rn = set()
        for r in ref_all:
            subnodes(r, self.rn)
        self.cn = set()
        for c in cur_all:
            subnodes(c, self.cn)
        self.defs = []
        self.und = []
        self.seen = set()
        self._pl = {}

    def run(self, r, c):
        self.go(r, c, ())
        return self.defs, self.und

    # novel loop content on the current side / on the reference side
    def novel(self, c):
        return [x for x in subnodes(c) if x.op in LOOPS and x.op != "lam" and x not in self.rn]

    def lost(self, r):
        return [x for x in subnodes(r) if x.op in LOOPS and x.op != "lam" and x not in self.cn]

    loose = False    # events were paired by likeness only

    def mismatch(self, r, c, p, why):
        """two sub-terms that do not align structurally"""
        if r.tops or c.tops:
            self.und.append((p, why + " (unknown value)", r, c))
            return
        nv = self.novel(c)
        if not nv:
            self.defs.append((p, why, r, c))
            return
        ls = self.lost(r)
        # a single rewritten loop of the same kind: align and descend
        top = [x for x in nv if not any(x is not y and x in subnodes(y) for y in nv)]
        ltop = [x for x in ls if not any(x is not y and x in subnodes(y) for y in ls)]
        if len(top) == 1 and len(ltop) == 1 and top[0].op == ltop[0].op and (r is not ltop[0] or c is not top[0]):
            self.go(ltop[0], top[0], p + ("loop",))
        else:
            self.und.append((p, why + " (loop form not comparable)", r, c))

    def go(self, r, c, p):
        if r is c:
            return
        k = (r, c)
        if k in self.seen or len(self.defs) > 20:
            return
        self.seen.add(k)
        if r.op == "top" or c.op == "top":
            self.und.append((p, "unknown", r, c))
            return
        if self.clipped(r, c) or self.clipped(c, r):
            self.und.append((p, "bound clipped by a sequence length", r, c))
            return
        f = getattr(self, "d_" + r.op, None)
        if r.op == "ite" or c.op == "ite":
            return self.d_ite(r, c, p)
        if r.op == "poly" or c.op == "poly":
            return self.d_poly(r, c, p)
        if r.op != c.op:
            return self.mismatch(r, c, p, "%s became %s" % (r.op, c.op))
        if f is not None:
            return f(r, c, p)
        if r.op in LOOPS and r.op != "lam":
            return self.d_loop(r, c, p)
        return self.generic(r, c, p)

    def clipped(self, a, b):
        """b = min(a, len of something, ...): equal whenever the sequence is long enough"""
        if b.op == "poly":
            b2 = b
            for mono, k in b.a[0]:
                if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "app" and mono[0][0].a[0] == "min":
                    x = mono[0][0]
                    rest = [y for y in x.a[1:] if y.op != "int" and not any(z.op == "len" for z in subnodes(y))]
                    if rest and len(rest) < len(x.a) - 1:
                        y = rest[0]
                        for z in rest[1:]:
                            y = T.MIN(y, z)
                        b2 = T.add(b2, T.mul(T.Int(k), T.sub(y, x)))
            return b2 is a and b2 is not b
        if b.op != "app" or b.a[0] != "min":
            return False
        xs = set(a.a[1:]) if a.op == "app" and a.a[0] == "min" else {a}
        ys = set(b.a[1:])
        return xs < ys and all(y.op == "int" and a.op != "int" or any(z.op == "len" for z in subnodes(y)) for y in ys - xs)

    def generic(self, r, c, p):
        if len(r.a) != len(c.a):
            return self.mismatch(r, c, p, "%s has %d parts instead of %d" % (r.op, len(c.a), len(r.a)))
        pairs = []
        for i, (x, y) in enumerate(zip(r.a, c.a)):
            if x is y:
                continue
            if x.__class__ is N and y.__class__ is N:
                pairs.append((x, y, p + ("%s.%d" % (r.op, i),)))
            elif x.__class__ is tuple and y.__class__ is tuple:
                if len(x) != len(y):
                    return self.mismatch(r, c, p, "%s: %d items instead of %d" % (r.op, len(y), len(x)))
                for j, (u, v) in enumerate(zip(x, y)):
                    if u.__class__ is N and v.__class__ is N:
                        if u is not v:
                            pairs.append((u, v, p + ("%s.%d.%d" % (r.op, i, j),)))
                    elif u != v:
                        return self.mismatch(r, c, p, "%s: %s instead of %s" % (r.op, v, u))
            elif x != y:
                return self.mismatch(r, c, p, "%s: %s instead of %s" % (r.op, str(y)[:80], str(x)[:80]))
        for x, y, q in pairs:
            self.go(x, y, q)

    def d_app(self, r, c, p):
        if r.a[0] != c.a[0]:
            return self.mismatch(r, c, p, "%s instead of %s" % (c.a[0], r.a[0]))
        if len(r.a) != len(c.a):
            return self.mismatch(r, c, p, "%s: argument count" % (r.a[0],))
        for i, (x, y) in enumerate(zip(r.a[1:], c.a[1:])):
            if x.__class__ is N and y.__class__ is N:
                self.go(x, y, p + ("%s#%d" % (r.a[0], i),))
            elif x != y:
                return self.mismatch(r, c, p, "%s instead of %s" % (y, x))

    d_ev = d_app

    def d_adt(self, r, c, p):
        if r.a[0] != c.a[0] or r.a[1] != c.a[1] or len(r.a) != len(c.a):
            return self.mismatch(r, c, p, "%s::%s instead of %s::%s" % (c.a[0], c.a[1], r.a[0], r.a[1]))
        for i, (x, y) in enumerate(zip(r.a[2:], c.a[2:])):
            self.go(x, y, p + ("%s.%s" % (r.a[0].rsplit("::", 1)[-1], T.fname(r.a[0], r.a[1], i)),))

    def d_alts(self, r, c, p):
        nk = lambda x: (x.a[0], x.a[1]) if x.a[0] not in ("=store", "=cat") else x.a[:3] if x.a[0] == "=store" else x.a[:-x.a[1]] if x.a[1] else x.a
        a, b = {nk(x): x for x in r.a[1:]}, {nk(x): x for x in c.a[1:]}
        self.go(r.a[0], c.a[0], p + ("which",))
        if set(a) == set(b):
            for k in a:
                self.go(a[k], b[k], p + ("case",))
        elif r.a[0] is c.a[0]:
            self.mismatch(r, c, p, "different alternatives")

    def d_lam(self, r, c, p):
        if r.a[1] != c.a[1]:
            return self.und.append((p, "lambda arity", r, c))
        b1, b2 = r.a[2], c.a[2]
        if r.a[0] != c.a[0]:
            # rename the bound variables of both to common fresh ones
            fs = [T.Fresh("d") for _ in range(r.a[1])]
            b1 = T.apply_lam(r, *fs)
            b2 = T.apply_lam(c, *fs)
            d = Differ([b1], [b2])
            d.rn |= self.rn
            d.cn |= self.cn
            d.go(b1, b2, p)
            self.defs += d.defs
            self.und += d.und
            return
        self.go(b1, b2, p)

    def d_loop(self, r, c, p):
        if len(r.a) != len(c.a):
            return self.und.append((p, "loop shape", r, c))
        df = [i for i in range(len(r.a)) if r.a[i] is not c.a[i] and r.a[i] != c.a[i]]
        if len(df) != 1:
            return self.und.append((p, "loop restructured", r, c))
        i = df[0]
        x, y = r.a[i], c.a[i]
        if not (x.__class__ is N and y.__class__ is N):
            return self.und.append((p, "loop shape", r, c))
        self.go(x, y, p + ("%s.%s" % (r.op, i),))

    def d_poly(self, r, c, p):
        t1, t2 = T._terms(r) if r.op in ("poly", "int") or True else {}, T._terms(c)
        l1 = {m: k for m, k in t1.items() if t2.get(m) != k}
        l2 = {m: k for m, k in t2.items() if t1.get(m) != k}
        m1 = [m for m in l1 if m not in l2]
        m2 = [m for m in l2 if m not in l1]
        both = [m for m in l1 if m in l2]
        if both or not m1 or not m2 or len(m1) != len(m2):
            return self.mismatch(r, c, p, "different polynomial")
        # substitute-one-atom alignment
        a1 = {x for m in m1 for x, _ in m} - {x for m in m2 for x, _ in m}
        a2 = {x for m in m2 for x, _ in m} - {x for m in m1 for x, _ in m}
        if len(a1) == 1 and len(a2) == 1:
            x, y = a1.pop(), a2.pop()
            if x.op == y.op or {x.op, y.op} & {"ite"}:
                return self.go(x, y, p + ("poly",))
        return self.mismatch(r, c, p, "different polynomial")

    def d_ite(self, r, c, p):
        if r.op == "ite" and c.op == "ite" and r.a[0] is c.a[0]:
            self.go(r.a[1], c.a[1], p + ("then",))
            self.go(r.a[2], c.a[2], p + ("else",))
            return
        A, B = conds(r), conds(c)
        l1, l2 = [x for x in A if x not in B], [x for x in B if x not in A]
        if not l1 and not l2:
            # same decisions, different outcome: descend along the first decision
            v = min(A | B, key=lambda n: n.id)
            self.go(T.restrict(r, v, True), T.restrict(c, v, True), p + ("if",))
            self.go(T.restrict(r, v, False), T.restrict(c, v, False), p + ("if!",))
            return
        if len(l1) == 1 and len(l2) == 1 and l1[0].op == l2[0].op:
            x = T.Fresh("c")
            bx = T._mk("bcond", (x,))
            r2, c2 = replace_cond(r, l1[0], bx), replace_cond(c, l2[0], bx)
            if r2 is c2:
                return self.go(l1[0], l2[0], p + ("condition",))
        self.mismatch(r, c, p, "different decision: " + " / ".join(T.show(x, 3)[:60] for x in (l2 or l1)[:2]))


    def d_tr(self, r, c, p):
        if r.a[0] is not c.a[0]:
            self.go(r.a[0], c.a[0], p + ("base",))
            if r.a[1] == c.a[1]:
                return
        self.events(r, c, r.a[1], c.a[1], p)

    def events(self, r, c, e1, e2, p):
        i = 0
        while i < len(e1) and i < len(e2) and e1[i] is e2[i]:
            i += 1
        j = 0
        while j < len(e1) - i and j < len(e2) - i and e1[-1 - j] is e2[-1 - j]:
            j += 1
        x, y = e1[i:len(e1) - j], e2[i:len(e2) - j]
        if len(x) == len(y):
            if sorted(z.id for z in x) == sorted(z.id for z in y):
                return self.mismatch(r, c, p, "effects reordered at step %d" % i)
            for u, v in zip(x, y):
                self.go(u, v, p + ("step%d" % i,))
            return
        nm = lambda l: ",".join(str(z.a[0])[:60] if z.op == "ev" else z.op for z in l[:4])
        self.mismatch(r, c, p, "effects [%s] instead of [%s]" % (nm(y), nm(x)))

    def d_bag(self, r, c, p):
        from collections import Counter
        a, b = Counter(r.a[1]), Counter(c.a[1])
        x, y = list((a - b).elements()), list((b - a).elements())
        if r.a[0] is not c.a[0]:
            self.go(r.a[0], c.a[0], p + ("base",))
        self.bagdiff(x, y, r, c, p)

    def bagdiff(self, x, y, r, c, p):
        kind = lambda e: kind_of(e)
        from collections import Counter
        k1, k2 = Counter(map(kind, x)), Counter(map(kind, y))
        for k in set(k1) | set(k2):
            xs = [e for e in x if kind(e) == k]
            ys = [e for e in y if kind(e) == k]
            if len(xs) == 1 and len(ys) == 1:
                self.go(xs[0], ys[0], p + (k,))
            elif len(xs) == len(ys):
                # pair greedily by amount of shared structure
                self.loose |= any(e.op in ("lp", "lp1") for e in xs + ys)
                for e in xs:
                    best = max(ys, key=lambda f: len(subnodes(e) & subnodes(f)))
                    ys.remove(best)
                    self.go(e, best, p + (k,))
            else:
                for e in xs if len(xs) > len(ys) else ys:
                    if len(xs) > len(ys):
                        self.mismatch(e, c if False else T.UNIT, p + (k,), "missing " + k)
                    else:
                        self.mismatch(T.UNIT, e, p + (k,), "additional " + k)


def kind_of(e):
    while e.op in ("when", "lp1", "lp"):
        if e.op == "when":
            e = e.a[1]
        elif e.op == "lp1":
            e = e.a[1].a[2]
        else:
            e = e.a[1].a[2].a[0]
    return str(e.a[0]) if e.op == "ev" else e.op


def conds(x, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if x.op == "ite" and x not in seen:
        seen.add(x)
        acc.add(x.a[0])
        conds(x.a[1], acc, seen)
        conds(x.a[2], acc, seen)
    elif x.op in T._BOOLOPS:
        acc.add(x)
    return acc


def replace_cond(x, a, b):
    hi, lo = T.restrict(x, a, True), T.restrict(x, a, False)
    return T.ite(b, hi, lo)
