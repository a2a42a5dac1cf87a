"""Iterator algebra: iterator values are `it` nodes; driving one evaluates the
loop body through the interpreter's loop summariser."""
from . import terms as T
from .terms import N, _mk, Int, ite, UNIT, TRUE, FALSE, Top, App, Fresh, Lam

OPT, RES = T.OPT, T.RES


def It(kind, *a):
    return _mk("it", (kind,) + a)


def SEQ(v):
    return It("seq", v)


EMPTY = It("seq", T.Arr([]))


def as_it(I, v, st, ty=None):
    """turn any value used as an iterator into an it node"""
    if v.op == "it":
        return v
    if ty is not None and ty[0] == "adt" and not ty[1].startswith(("core::", "alloc::", "std::")):
        im, m = I.P.find_impl("core::iter::traits::iterator::Iterator", (ty,))
        fn = I.P.fns.get((im["itemmap"].get("next") or (0, None))[1]) if im is not None else None
        if fn is not None:
            # an iterator written in the workspace: every element is one call of its next()
            if v.op != "ref":
                return SEQ(App("iterate " + fn.path, I.reify(v, st)))
            I.itfns[fn.path] = (fn, m)
            return It("user", v, fn.path)
    if v.op == "ref":
        w = I.read(st, v.a[0], v.a[1])
        if w.op == "it":
            return It("byref", v)
        if w.op == "ref":
            return as_it(I, w, st, ty)
        if w.op == "adt" and w.a[0].startswith("core::ops::range::Range") or w.op == "app" and w.a[0] == "rangeincl":
            # a range driven through a mutable borrow
            I.write(st, v.a[0], v.a[1], as_it(I, w, st, ty))
            return It("byref", v)
        return It("mut", v)
    if v.op == "adt":
        if v.a[0].startswith("core::ops::range::Range"):
            nm = v.a[0].rsplit("::", 1)[1]
            if nm == "Range":
                return It("range", v.a[2], v.a[3])
            if nm == "RangeFrom":
                return It("range", v.a[2], T.INF)
            if nm == "RangeInclusive":
                return It("range", v.a[2], T.add(v.a[3], T.ONE))
        if v.a[0] == OPT:
            return It("opt", v)
    if v.op == "app" and v.a[0] == "rangeincl":
        return It("range", v.a[1], T.add(v.a[2], T.ONE))
    if ty is not None and ty[0] == "adt" and ty[1] == OPT:
        return It("opt", v)
    if v.op == "ite":
        return It("ite", v.a[0], as_it(I, v.a[1], st, ty), as_it(I, v.a[2], st, ty))
    return SEQ(v)


def seqsub(v, lo):
    return T.Slice(v, lo, T.seqlen(v)) if lo is not T.ZERO else v


def monus(a, b):
    if a is T.INF:
        return a
    d = T.sub(a, b)
    if d.op == "int":
        return d if d.a[0] >= 0 else T.ZERO
    return d


def length(I, it, st):
    """number of elements, or None when not indexable"""
    k = it.a[0]
    if k == "seq":
        v = it.a[1]
        if v.op == "cat" and any(x.op == "flat" for x in v.a) or v.op == "flat":
            pass
        return T.seqlen(v)
    if k == "mut":
        return T.seqlen(I.deref(st, it.a[1]))
    if k == "mapmut":
        return T.seqlen(it.a[2])
    if k == "user":
        return T.INF
    if k == "range":
        if it.a[2] is T.INF:
            return T.INF
        return monus(it.a[2], it.a[1])
    if k == "map":
        return length(I, it.a[1], st)
    if k == "enum":
        return length(I, it.a[1], st)
    if k == "zip":
        a, b = length(I, it.a[1], st), length(I, it.a[2], st)
        if a is None or b is None:
            return None
        return T.MIN(a, b)
    if k == "rev":
        return length(I, it.a[1], st)
    if k == "take":
        a = length(I, it.a[1], st)
        return None if a is None else T.MIN(a, it.a[2])
    if k == "skip":
        a = length(I, it.a[1], st)
        return None if a is None else monus(a, it.a[2])
    if k == "step":
        a = length(I, it.a[1], st)
        if a is None:
            return None
        if a.op == "int" and it.a[2].op == "int":
            return Int((a.a[0] + it.a[2].a[0] - 1) // it.a[2].a[0])
        return App("divceil", a, it.a[2])
    if k in ("chunks", "chunksmut"):
        a = T.seqlen(it.a[1] if k == "chunks" else I.deref(st, it.a[1]))
        if it.a[2] is T.ONE:
            return a
        if a.op == "int" and it.a[2].op == "int":
            return Int((a.a[0] + (0 if it.a[3] else it.a[2].a[0] - 1)) // it.a[2].a[0])
        return App("div" if it.a[3] else "divceil", a, it.a[2])
    if k == "windows":
        return T.add(T.sub(T.seqlen(it.a[1]), it.a[2]), T.ONE)
    if k == "repeat":
        return T.INF
    return None


def at(I, it, i, st):
    k = it.a[0]
    if k == "seq":
        return T.idx(it.a[1], i)
    if k == "mut":
        r = it.a[1]
        return _mk("ref", (r.a[0], r.a[1] + (("i", i),)))
    if k == "user":
        fn, m = I.itfns[it.a[2]]
        if fn.path in I.opaque or I.is_opaque(fn):
            x = I.opaque_call(fn.path, [it.a[1]], st, True)
        else:
            x = I.call_fn(fn, [it.a[1]], m, st)
        return T.payload(x, OPT, 1, 0)
    if k == "mapmut":
        r = it.a[1]
        key = T.idx(it.a[2], i)
        x = _mk("ref", (r.a[0], r.a[1] + (("k", key),)))
        return T.Tuple(key, x) if it.a[3] else x
    if k == "range":
        return T.add(it.a[1], i)
    if k == "map":
        return I.call_clo(it.a[2], [at(I, it.a[1], i, st)], st)
    if k == "enum":
        return T.Tuple(T.add(it.a[2], i), at(I, it.a[1], i, st))
    if k == "zip":
        a = at(I, it.a[1], i, st)
        return T.Tuple(a, at(I, it.a[2], i, st))
    if k == "rev":
        n = length(I, it.a[1], st)
        return at(I, it.a[1], T.sub(T.sub(n, T.ONE), i), st)
    if k == "take":
        return at(I, it.a[1], i, st)
    if k == "skip":
        return at(I, it.a[1], T.add(i, it.a[2]), st)
    if k == "step":
        return at(I, it.a[1], T.mul(i, it.a[2]), st)
    if k == "chunks":
        n = T.seqlen(it.a[1])
        lo = T.mul(i, it.a[2])
        hi = T.add(lo, it.a[2])
        if n.op == "int" and hi.op == "int":
            hi = Int(min(n.a[0], hi.a[0]))
        else:
            hi = T.MIN(hi, n) if not it.a[3] and it.a[2] is not T.ONE else hi
        return T.Slice(it.a[1], lo, hi)
    if k == "chunksmut":
        r = it.a[1]
        n = T.seqlen(I.deref(st, r))
        lo = T.mul(i, it.a[2])
        hi = T.add(lo, it.a[2])
        if n.op == "int" and hi.op == "int":
            hi = Int(min(n.a[0], hi.a[0]))
        else:
            hi = T.MIN(hi, n) if not it.a[3] and it.a[2] is not T.ONE else hi
        return _mk("ref", (r.a[0], r.a[1] + (("s", lo, hi),)))
    if k == "windows":
        return T.Slice(it.a[1], i, T.add(i, it.a[2]))
    if k == "repeat":
        return it.a[1]
    return Top("iterator element")


def indexable(I, it, st):
    return length(I, it, st) is not None


def drive(I, it, body, st):
    """body(value, state)"""
    if it.op != "it":
        it = as_it(I, it, st)
    k = it.a[0]
    if k == "chain":
        drive(I, it.a[1], body, st)
        if not st.dead:
            drive(I, it.a[2], body, st)
        return
    if k == "seq" and it.a[1].op == "cat":
        for p in it.a[1].a:
            if st.dead:
                return
            drive(I, SEQ(p), body, st)
        return
    if k == "seq" and it.a[1].op == "ite":
        v = it.a[1]
        I.branch(st, v.a[0], lambda s: drive(I, SEQ(v.a[1]), body, s), lambda s: drive(I, SEQ(v.a[2]), body, s))
        return
    if k == "seq" and it.a[1].op == "flat":
        n, lam = it.a[1].a
        I.loop(n, lambda i, s: drive(I, SEQ(T.apply_lam(lam, i)), body, s), st)
        return
    if k == "seq" and it.a[1].op == "top":
        I.loop(T.Fresh("n"), lambda i, s: body(it.a[1], s), st)
        return
    if k == "ite":
        I.branch(st, it.a[1], lambda s: drive(I, it.a[2], body, s), lambda s: drive(I, it.a[3], body, s))
        return
    if k == "opt":
        v = it.a[1]
        I.branch(st, T.is_variant(v, OPT, 1), lambda s: body(T.payload(v, OPT, 1, 0), s), lambda s: UNIT)
        return
    if k == "byref":
        r = it.a[1]
        inner = I.deref(st, r)
        I.write_ref(st, r, EMPTY)
        drive(I, inner, body, st)
        return
    if k == "rev":
        x = it.a[1]
        kk = x.a[0]
        if kk == "chain":
            drive(I, It("rev", x.a[2]), body, st)
            if not st.dead:
                drive(I, It("rev", x.a[1]), body, st)
            return
        if kk == "seq" and x.a[1].op == "cat":
            for p in reversed(x.a[1].a):
                if st.dead:
                    return
                drive(I, It("rev", SEQ(p)), body, st)
            return
        if kk == "map":
            drive(I, It("map", It("rev", x.a[1]), x.a[2]), body, st)
            return
        if kk == "rev":
            drive(I, x.a[1], body, st)
            return
        if kk == "filter":
            drive(I, It("filter", It("rev", x.a[1]), x.a[2]), body, st)
            return
        if length(I, x, st) is None:
            v = collect(I, x, st)
            drive(I, It("rev", SEQ(v)), body, st)
            return
    if k == "map":
        f = it.a[2]
        drive(I, it.a[1], lambda v, s: _then(I, s, lambda s2: I.call_clo(f, [v], s2), body), st)
        return
    if k == "inspect":
        f = it.a[2]

        def insp(v, s):
            I.call_clo(f, [v], s)
            if not s.dead:
                body(v, s)
        drive(I, it.a[1], insp, st)
        return
    if k == "filter":
        f = it.a[2]

        def fb(v, s):
            c = I.tobool(I.call_clo(f, [v], s))
            if s.dead:
                return
            I.branch(s, c, lambda s2: body(v, s2), lambda s2: UNIT)
        drive(I, it.a[1], fb, st)
        return
    if k == "filter_map":
        f = it.a[2]

        def fm(v, s):
            r = I.call_clo(f, [v], s)
            if s.dead:
                return
            I.branch(s, T.is_variant(r, OPT, 1), lambda s2: body(T.payload(r, OPT, 1, 0), s2), lambda s2: UNIT)
        drive(I, it.a[1], fm, st)
        return
    if k in ("flat_map", "flatten"):
        def fl(v, s):
            r = I.call_clo(it.a[2], [v], s) if k == "flat_map" else v
            if s.dead:
                return
            drive(I, as_it(I, r, s), body, s)
        drive(I, it.a[1], fl, st)
        return
    if k == "enum":
        if length(I, it.a[1], st) is None or sliceable(it.a[1]):
            c = I.alloc(st, it.a[2])

            def en(v, s):
                n = s.cells[c]
                s.cells[c] = T.add(n, T.ONE)
                body(T.Tuple(n, v), s)
            drive(I, it.a[1], en, st)
            return
    if k == "zip":
        a, b = it.a[1], it.a[2]
        pa, pb = pieces(I, a, st), pieces(I, b, st)
        if pa is not None and pb is not None and (len(pa) > 1 or len(pb) > 1):
            z = zip_pieces(I, pa, pb, st)
            if z is not None:
                for x, y in z:
                    if st.dead:
                        return
                    drive(I, It("zip", x, y), body, st)
                return
        if length(I, a, st) is None or length(I, b, st) is None:
            a2 = a if length(I, a, st) is not None else SEQ(collect(I, a, st))
            if st.dead:
                return
            b2 = b if length(I, b, st) is not None else SEQ(collect(I, b, st))
            if st.dead:
                return
            drive(I, It("zip", a2, b2), body, st)
            return
    if k in ("take", "skip", "step") and length(I, it, st) is None:
        v = collect(I, it.a[1], st)
        if st.dead:
            return
        drive(I, It(k, SEQ(v), it.a[2]), body, st)
        return
    if k == "skip" and it.a[1].a[0] == "seq":
        v = it.a[1].a[1]
        if v.op in ("cat", "ite"):
            drive(I, SEQ(T.Slice(v, it.a[2], T.seqlen(v))), body, st)
            return
    if k == "take_while":
        brk = []
        I.exitlists.append(brk)
        base = st.path

        def tw(v, s):
            c = I.tobool(I.call_clo(it.a[2], [v], s))

            def stop(s2):
                brk.append((s2.copy(), UNIT))
                s2.dead = True
                return UNIT
            I.branch(s, c, lambda s2: body(v, s2), stop)
        drive(I, it.a[1], tw, st)
        I.popexit(brk)
        if brk:
            ents = list(brk)
            if not st.dead:
                ents.append((st.copy(), UNIT))
            I.join_entries(base, ents, st)
        return
    if k == "scan":
        c = I.alloc(st, it.a[2])
        brk = []
        I.exitlists.append(brk)
        base = st.path

        def sc(v, s):
            r = I.call_clo(it.a[3], [_mk("ref", (c, ())), v], s)
            if s.dead:
                return

            def stop(s2):
                brk.append((s2.copy(), UNIT))
                s2.dead = True
                return UNIT
            I.branch(s, T.is_variant(r, OPT, 1), lambda s2: body(T.payload(r, OPT, 1, 0), s2), stop)
        drive(I, it.a[1], sc, st)
        I.popexit(brk)
        if brk:
            ents = list(brk)
            if not st.dead:
                ents.append((st.copy(), UNIT))
            I.join_entries(base, ents, st)
        return
    if k == "succ":
        # successors(first, f): symbolic infinite sequence
        drive(I, SEQ(App("successors", I.reify(it.a[1], st), I.reify(it.a[2], st))), body, st)
        return
    n = length(I, it, st)
    if n is None:
        v = I.unk("iterator", str(k))
        I.loop(Fresh("n"), lambda i, s: body(v, s), st)
        return

    def step(i, s):
        v = at(I, it, i, s)
        if not s.dead:
            body(v, s)
    if n is T.INF:
        if k in ("range", "repeat") or True:
            I.loop(n, step, st)
            return
    I.loop(n, step, st)


def sliceable(it):
    """iterator whose drive splits into pieces"""
    k = it.a[0]
    if k == "seq":
        return it.a[1].op in ("cat", "ite", "flat")
    if k in ("map", "rev"):
        return sliceable(it.a[1])
    return k in ("chain",)


def pieces(I, it, st):
    """split an iterator into consecutive indexable iterators"""
    k = it.a[0]
    if k == "chain":
        a, b = pieces(I, it.a[1], st), pieces(I, it.a[2], st)
        if a is None or b is None:
            return None
        return a + b
    if k == "seq" and it.a[1].op == "cat":
        if any(x.op == "flat" for x in it.a[1].a):
            return None
        return [SEQ(p) for p in it.a[1].a]
    if k == "map":
        p = pieces(I, it.a[1], st)
        return None if p is None else [It("map", x, it.a[2]) for x in p]
    if length(I, it, st) is None:
        return None
    return [it]


def itslice(I, it, lo, n):
    if lo is not T.ZERO:
        it = It("skip", it, lo)
    return It("take", it, n)


def zip_pieces(I, pa, pb, st):
    out = []
    pa, pb = list(pa), list(pb)
    while pa and pb:
        a, b = pa.pop(0), pb.pop(0)
        na, nb = length(I, a, st), length(I, b, st)
        if na is nb:
            out.append((a, b))
            continue
        if na is T.INF or nb is T.INF:
            if na is T.INF:
                out.append((It("take", a, nb), b))
                pa.insert(0, It("skip", a, nb))
            else:
                out.append((a, It("take", b, na)))
                pb.insert(0, It("skip", b, na))
            continue
        d = T.sub(na, nb)
        if d.op == "int":
            pos = d.a[0] > 0
        elif all(c > 0 for m, c in T._terms(d).items()):
            pos = True
        elif all(c < 0 for m, c in T._terms(d).items()):
            pos = False
        else:
            if not pa and not pb:
                out.append((a, b))
                break
            return None
        if pos:
            out.append((It("take", a, nb), b))
            pa.insert(0, It("skip", a, nb))
        else:
            out.append((a, It("take", b, na)))
            pb.insert(0, It("skip", b, na))
    return out


def _then(I, s, f, body):
    v = f(s)
    if not s.dead:
        body(v, s)


def collect(I, it, st):
    if it.op != "it":
        it = as_it(I, it, st)
    k = it.a[0]
    if k == "seq":
        return it.a[1]
    if k == "range" and it.a[2] is not T.INF:
        f = Fresh("i")
        return T.Seq(length(I, it, st), Lam([f], T.add(f, it.a[1])))
    c = I.alloc(st, T.Arr([]))

    def push(v, s):
        s.cells[c] = T.Cat(s.cells[c], T.Arr([v]))
    drive(I, it, push, st)
    if st.dead:
        return UNIT
    return st.cells[c]


def early(I, st, run, fin):
    """run(stop) drives something; stop(s, value) leaves early with value"""
    brk = []
    I.exitlists.append(brk)
    base = st.path

    def stop(s, v):
        brk.append((s.copy(), v))
        s.dead = True
        return UNIT
    run(stop)
    I.popexit(brk)
    ents = list(brk)
    if not st.dead:
        v = fin(st)
        if not ents:
            return v
        ents.append((st.copy(), v))
    if not ents:
        st.dead = True
        return UNIT
    return I.join_entries(base, ents, st)


def collect_try(I, it, st, adt):
    """collect into Result<Vec,E> / Option<Vec>"""
    okv = 0 if adt == RES else 1
    c = I.alloc(st, T.Arr([]))

    def run(stop):
        def push(v, s):
            v = I.deref(s, v)

            def good(s2):
                s2.cells[c] = T.Cat(s2.cells[c], T.Arr([T.payload(v, adt, okv, 0)]))
                return UNIT

            def bad(s2):
                return stop(s2, T.Err(T.payload(v, RES, 1, 0)) if adt == RES else T.NoneV())
            I.branch(s, T.is_variant(v, adt, okv), good, bad)
        drive(I, it, push, st)
    return early(I, st, run, lambda s: T.Ok(s.cells[c]) if adt == RES else T.Some(s.cells[c]))


def fold(I, it, init, f, st):
    c = I.alloc(st, init)

    def b(v, s):
        r = f(s.cells[c], v, s)
        if not s.dead:
            s.cells[c] = r
    drive(I, it, b, st)
    return st.cells.get(c, UNIT)


def step_next(I, it, st):
    """returns (value Option, rest)"""
    k = it.a[0]
    if k == "chain":
        n = length(I, it.a[1], st)
        if n is T.ZERO:
            return step_next(I, it.a[2], st)
        if n is not None and n.op == "int":
            v, r = step_next(I, it.a[1], st)
            return v, It("chain", r, it.a[2])
    if k == "opt":
        return it.a[1], EMPTY
    if length(I, it, st) is None:
        it = SEQ(collect(I, it, st))
        k = "seq"
    n = length(I, it, st)
    if n is T.ZERO:
        return T.NoneV(), it
    v = T.Some(at(I, it, T.ZERO, st))
    if k == "seq":
        rest = SEQ(T.Slice(it.a[1], T.ONE, n))
    elif k == "skip":
        rest = It("skip", it.a[1], T.add(it.a[2], T.ONE))
    elif k == "range":
        rest = It("range", T.add(it.a[1], T.ONE), it.a[2])
    else:
        rest = It("skip", it, T.ONE)
    if n.op == "int" or n is T.INF:
        return v, rest
    if k in ("skip", "range"):
        return ite(T.lt(T.ZERO, n), v, T.NoneV()), rest     # the position may have run past the end
    return ite(T.eq(n, T.ZERO), T.NoneV(), v), rest


def cursor(I, it, st):
    """an iterator advanced inside a loop: (iterator with a hole for its position, start position), or None"""
    k = it.a[0]
    if k == "byref":
        return None
    if k == "range":
        return (lambda p: It("range", p, it.a[2])), it.a[1]
    if k == "skip":
        return (lambda p: It("skip", it.a[1], p)), it.a[2]
    if length(I, it, st) is None:
        it = SEQ(collect(I, it, st.copy()))
    return (lambda p: It("skip", it, p)), T.ZERO
