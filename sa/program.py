"""Loads the THIR dumps: functions, ADTs, traits, impls; type substitution and impl lookup."""
import json, os, re
from . import terms as T

IMPLRE = re.compile(r"::\{impl#\d+\}")


class Fn:
    __slots__ = ("id", "path", "kind", "loc", "generics", "vis", "impl", "trait", "params", "ret", "exprs", "root", "crate", "file")

    def __repr__(self):
        return "Fn(%s)" % self.path


class Program:
    def __init__(self, dumpdir):
        self.fns = {}
        self.by_path = {}
        self.traits = {}
        self.impls = []
        self.impl_by_id = {}
        self.impls_by_trait = {}
        self.inherent = {}
        self.crates = {}
        self._tymemo = {}
        for f in sorted(os.listdir(dumpdir)):
            if f.endswith(".json") and not f.startswith(("build_script", "ckb_std")):
                with open(os.path.join(dumpdir, f)) as fh:
                    self._load(json.load(fh), f[:-5])
        for im in self.impls:
            if im.get("trait"):
                self.impls_by_trait.setdefault(im["trait"], []).append(im)

    def _load(self, d, key):
        self.crates[key] = d
        for a in d["adts"]:
            vs = [{"name": v["name"], "fields": [(f[0], self.ty(key, f[1]), f[2]) for f in v["fields"]]} for v in a["variants"]]
            T.ADT_INFO[a["id"]] = {"kind": a["kind"], "generics": a["generics"], "variants": vs, "discr": a["discr"]}
        for t in d["traits"]:
            old = self.traits.get(t["id"])
            self.traits[t["id"]] = {"generics": t["generics"], "items": {i[0]: (i[1], i[2], i[3]) for i in t["items"]}}
        for im in d["impls"]:
            im = dict(im)
            im["crate"] = key
            im["selfty"] = self.ty(key, im["self"])
            if im.get("targs") is not None:
                im["targs"] = [self.garg(key, g) for g in im["targs"]]
            im["itemmap"] = {i[0]: i for i in im["items"]}
            self.impls.append(im)
            self.impl_by_id[im["id"]] = im
        for f in d["fns"]:
            fn = Fn()
            fn.id = f["id"]
            fn.path = f["path"]
            fn.kind = f["kind"]
            fn.loc = f["loc"]
            fn.file = f["loc"].rsplit(":", 1)[0]
            fn.generics = f["generics"]
            fn.vis = f.get("vis")
            fn.impl = f.get("impl")
            fn.trait = f.get("trait")
            fn.params = f["params"]
            fn.ret = f.get("ret")
            fn.exprs = f["exprs"]
            fn.root = f["root"]
            fn.crate = key
            self.fns[fn.id] = fn
            self.by_path.setdefault(fn.path, []).append(fn)

    # -------------------------------------------------------------- types
    def garg(self, crate, g):
        if isinstance(g, dict):
            return self.cst(crate, g["c"])
        return self.ty(crate, g)

    def cst(self, crate, c):
        if isinstance(c, int):
            return ("c", c)
        if c[0] == "cparam":
            return ("cparam", c[1])
        if c[0] == "calias":
            return ("calias", c[1], tuple(self.garg(crate, g) for g in c[2]))
        return ("copaque", str(c[1]))

    def ty(self, crate, i):
        k = (crate, i)
        r = self._tymemo.get(k)
        if r is not None:
            return r
        self._tymemo[k] = ("rec", i)
        j = self.crates[crate]["types"][i]
        t = j[0]
        if t == "prim":
            r = ("prim", j[1])
        elif t == "adt":
            r = ("adt", j[1], tuple(self.garg(crate, g) for g in j[2]))
        elif t == "ref":
            r = ("ref", j[1], self.ty(crate, j[2]))
        elif t == "ptr":
            r = ("ref", j[1], self.ty(crate, j[2]))
        elif t == "array":
            r = ("array", self.ty(crate, j[1]), self.cst(crate, j[2]))
        elif t == "slice":
            r = ("slice", self.ty(crate, j[1]))
        elif t == "tuple":
            r = ("tuple", tuple(self.ty(crate, x) for x in j[1]))
        elif t == "param":
            r = ("param", j[1])
        elif t == "fndef":
            r = ("fndef", j[1], tuple(self.garg(crate, g) for g in j[2]))
        elif t == "closure":
            r = ("closure", j[1])
        elif t == "alias":
            r = ("alias", j[1], tuple(self.garg(crate, g) for g in j[2]), j[3])
        else:
            r = (t, j[1])
        self._tymemo[k] = r
        return r

    def subst(self, t, m):
        if not m:
            return t
        k = t[0]
        if k == "param" or k == "cparam":
            return m.get(t[1], t)
        if k in ("prim", "c", "closure", "fnptr", "dyn", "other", "copaque", "rec"):
            return t
        if k == "adt" or k == "fndef":
            return (k, t[1], tuple(self.subst(x, m) for x in t[2]))
        if k == "calias":
            return (k, t[1], tuple(self.subst(x, m) for x in t[2]))
        if k == "ref":
            return (k, t[1], self.subst(t[2], m))
        if k == "array":
            return (k, self.subst(t[1], m), self.subst(t[2], m))
        if k == "slice":
            return (k, self.subst(t[1], m))
        if k == "tuple":
            return (k, tuple(self.subst(x, m) for x in t[1]))
        if k == "alias":
            a = tuple(self.subst(x, m) for x in t[2])
            return self.normalize(("alias", t[1], a, t[3]))
        return t

    def normalize(self, t):
        """resolve an associated-type projection when an impl in the workspace decides it"""
        if t[0] != "alias" or not t[3]:
            return t
        name = t[1].rsplit("::", 1)[1]
        im, m = self.find_impl(t[3], t[2])
        if im is not None:
            it = im["itemmap"].get(name)
            if it and it[2] == "type":
                return self.subst(self.ty(im["crate"], it[3]), m)
        return t

    # -------------------------------------------------------------- unification
    def unify(self, pat, t, m, generics):
        if pat[0] == "param" and pat[1] in generics or pat[0] == "cparam" and pat[1] in generics:
            if pat[1] in m:
                return m[pat[1]] == t or t[0] in ("param", "alias")
            m[pat[1]] = t
            return True
        if pat[0] == "alias":
            return True
        if pat[0] != t[0]:
            return False
        k = pat[0]
        if k == "prim":
            return pat[1] == t[1]
        if k == "adt":
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(self.unify(a, b, m, generics) for a, b in zip(pat[2], t[2]))
        if k == "ref":
            return pat[1] == t[1] and self.unify(pat[2], t[2], m, generics)
        if k == "array":
            return self.unify(pat[1], t[1], m, generics) and (self.unify(pat[2], t[2], m, generics) if pat[2][0] == "cparam" else True)
        if k == "slice":
            return self.unify(pat[1], t[1], m, generics)
        if k == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, m, generics) for a, b in zip(pat[1], t[1]))
        return pat == t

    def find_impl(self, trait, targs):
        """targs[0] = Self"""
        if not targs or targs[0][0] in ("param", "alias"):
            # blanket impls for a bare parameter are not decided
            return None, None
        best = None
        for im in self.impls_by_trait.get(trait, ()):
            m = {}
            g = set(im["generics"])
            if im["selfty"][0] == "param":
                # blanket impl: accept only as a fallback
                if all(self.unify(a, b, m, g) for a, b in zip(im["targs"], targs)):
                    best = best or (im, m)
                continue
            if all(self.unify(a, b, m, g) for a, b in zip(im["targs"], targs)):
                return im, m
        return best if best else (None, None)

    def impl_overrides(self, trait, name):
        return any(name in im["itemmap"] for im in self.impls_by_trait.get(trait, ()))

    def callees_by_path(self):
        """resolved call graph over item paths: direct callees, closures folded into their owner, trait calls to every implementation"""
        bypar = {}
        for im in self.impls:
            if im.get("trait"):
                for n, i in im["itemmap"].items():
                    for x in i:
                        if isinstance(x, str) and x in self.fns:
                            bypar.setdefault((im["trait"], n), set()).add(self.fns[x].path)
        g = {}
        for fn in self.fns.values():
            own = fn.path.split("::{closure")[0]
            out = g.setdefault(own, set())
            for e in fn.exprs:
                c = e.get("callee")
                if c is None and isinstance(e.get("id"), str) and e["id"] in self.fns:
                    out.add(self.fns[e["id"]].path.split("::{closure")[0])
                if c:
                    for k in ("rid", "id"):
                        if c.get(k) in self.fns:
                            out.add(self.fns[c[k]].path)
                            break
                    else:
                        out |= bypar.get((c.get("trait"), c.get("name")), set())
        return g

    def line(self, fn, e):
        return "%s:%s" % (fn.file, e.get("l"))


def key_of(id_):
    """model key: def path without impl numbering"""
    return IMPLRE.sub("", id_)


def tyname(t):
    k = t[0]
    if k == "prim":
        return t[1]
    if k == "adt":
        n = t[1]
        return n + ("<" + ",".join(tyname(x) for x in t[2]) + ">" if t[2] else "")
    if k == "ref":
        return ("&mut " if t[1] else "&") + tyname(t[2])
    if k == "tuple":
        return "(" + ",".join(tyname(x) for x in t[1]) + ")"
    if k == "array":
        return "[" + tyname(t[1]) + ";" + tyname(t[2]) + "]"
    if k == "slice":
        return "[" + tyname(t[1]) + "]"
    if k == "param" or k == "cparam":
        return t[1]
    if k == "c":
        return str(t[1])
    if k == "alias":
        return "<" + (tyname(t[2][0]) if t[2] else "") + ">::" + t[1].rsplit("::", 1)[1]
    if k == "fndef":
        return "fn:" + t[1]
    return str(t[1]) if len(t) > 1 else k
