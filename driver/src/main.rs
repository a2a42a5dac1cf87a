// Dumps the type-checked program (THIR) of a workspace crate as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER: argv = [thirdump, rustc, args...].
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{AssignOp, BinOp, BorrowKind};
use rustc_middle::thir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

mod json;
use json::J;

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<J>,
    traits: HashMap<DefId, ()>,
    trait_out: Vec<J>,
    body_did: Option<LocalDefId>,
}

fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn n(x: i128) -> J { J::N(x) }

impl<'tcx> D<'tcx> {
    fn id(&self, did: DefId) -> String {
        let p = self.tcx.def_path(did);
        format!("{}{}", self.tcx.crate_name(did.krate), p.to_string_no_crate_verbose())
    }
    // Human-stable path (no impl numbering)
    fn path(&mut self, did: DefId) -> String {
        let tcx = self.tcx;
        if let Some(par) = tcx.opt_parent(did) {
            match tcx.def_kind(par) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                    let name = tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_else(|| self.leaf(did));
                    let sts = self.ty_path(st);
                    if let Some(tr) = tcx.impl_opt_trait_ref(par) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let tp = self.id(tr.def_id);
                        let mut a = String::new();
                        for g in tr.args.iter().skip(1) {
                            if let Some(t) = g.as_type() {
                                if !a.is_empty() { a.push(','); }
                                a.push_str(&self.ty_path(t));
                            }
                        }
                        if !a.is_empty() { a = format!("<{a}>"); }
                        return format!("<{sts} as {tp}{a}>::{name}");
                    }
                    return format!("<{sts}>::{name}");
                }
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static{..} | DefKind::AnonConst => {
                    let p = self.path(par);
                    let l = self.leaf(did);
                    return format!("{p}::{l}");
                }
                _ => {}
            }
        }
        self.id(did)
    }
    fn leaf(&self, did: DefId) -> String {
        let v = self.tcx.def_path(did).to_string_no_crate_verbose();
        v.rsplit("::").next().unwrap_or("").to_string()
    }
    fn ty_path(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, args) => {
                let mut r = self.id(a.did());
                let mut parts = vec![];
                for g in args.iter() {
                    if let Some(t) = g.as_type() { parts.push(self.ty_path(t)); }
                }
                if !parts.is_empty() { write!(r, "<{}>", parts.join(",")).unwrap(); }
                r
            }
            ty::Ref(_, t, m) => { let i = self.ty_path(*t); if m.is_mut() { format!("&mut {i}") } else { format!("&{i}") } }
            _ => with_no_trimmed_paths!(format!("{t}")),
        }
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) { return n(v as i128); }
        match c.kind() {
            ty::ConstKind::Param(p) => J::A(vec![s("cparam"), s(p.name.to_string())]),
            ty::ConstKind::Alias(_, ac) => {
                if let Some(d) = self.alias_const_did(&format!("{ac:?}"), ac) { d } else { J::A(vec![s("copaque"), s(format!("{c:?}"))]) }
            }
            _ => J::A(vec![s("copaque"), s(format!("{c:?}"))]),
        }
    }
    fn alias_const_did(&mut self, _dbg: &str, ac: ty::AliasConst<'tcx>) -> Option<J> {
        let did: DefId = match ac.kind {
            ty::AliasConstKind::Projection { def_id } => def_id.into(), ty::AliasConstKind::InherentSelf { def_id } => def_id.into(), ty::AliasConstKind::InherentImpl { def_id } => def_id.into(),
            ty::AliasConstKind::Free { def_id } => def_id.into(), ty::AliasConstKind::Anon { def_id } => def_id.into(),
        };
        let id = self.id(did);
        let a = self.args(ac.args);
        Some(J::A(vec![s("calias"), s(id), a]))
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() { let i = self.ty(t); v.push(n(i as i128)); }
            else if let Some(c) = g.as_const() { let c = self.cst(c); v.push(J::O(vec![("c", c)])); }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let j = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => J::A(vec![s("prim"), s(t.to_string())]),
            ty::Adt(a, args) => {
                self.adt(a.did());
                let x = self.args(args);
                J::A(vec![s("adt"), s(self.id(a.did())), x])
            }
            ty::Ref(_, t, m) => { let x = self.ty(*t); J::A(vec![s("ref"), n(m.is_mut() as i128), n(x as i128)]) }
            ty::RawPtr(t, m) => { let x = self.ty(*t); J::A(vec![s("ptr"), n(m.is_mut() as i128), n(x as i128)]) }
            ty::Array(t, c) => { let x = self.ty(*t); let c = self.cst(*c); J::A(vec![s("array"), n(x as i128), c]) }
            ty::Slice(t) => { let x = self.ty(*t); J::A(vec![s("slice"), n(x as i128)]) }
            ty::Tuple(ts) => { let v = ts.iter().map(|t| n(self.ty(t) as i128)).collect(); J::A(vec![s("tuple"), J::A(v)]) }
            ty::Param(p) => J::A(vec![s("param"), s(p.name.to_string())]),
            ty::FnDef(d, a) => { let x = self.args(a.skip_binder()); J::A(vec![s("fndef"), s(self.id(*d)), x]) }
            ty::Closure(d, _) => J::A(vec![s("closure"), s(self.id(*d))]),
            ty::FnPtr(..) => J::A(vec![s("fnptr"), s(with_no_trimmed_paths!(format!("{t}")))]),
            ty::Dynamic(..) => J::A(vec![s("dyn"), s(with_no_trimmed_paths!(format!("{t}")))]),
            ty::Alias(_, al) => {
                let adid: Option<DefId> = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => Some(def_id.into()), ty::AliasTyKind::Inherent { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => Some(def_id.into()), ty::AliasTyKind::Free { def_id } => Some(def_id.into()),
                };
                if let Some(did) = adid {
                    let x = self.args(al.args);
                    let par = self.tcx.opt_parent(did);
                    let par_id = par.map(|p| self.id(p)).unwrap_or_default();
                    if let Some(p) = par { if matches!(self.tcx.def_kind(p), DefKind::Trait) { self.trait_(p); } }
                    J::A(vec![s("alias"), s(self.id(did)), x, s(par_id)])
                } else { J::A(vec![s("other"), s(format!("{t:?}"))]) }
            }
            _ => J::A(vec![s("other"), s(with_no_trimmed_paths!(format!("{t}")))]),
        };
        self.ty_out[i] = j;
        i
    }
    fn adt(&mut self, did: DefId) {
        if self.adts.insert(did, ()).is_some() { return; }
        let def = self.tcx.adt_def(did);
        let mut vs = vec![];
        for v in def.variants() {
            let fs: Vec<J> = v.fields.iter().map(|f| {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(t);
                let vis = if f.vis.is_public() { 1 } else { 0 };
                J::A(vec![s(f.name.to_string()), n(ti as i128), n(vis)])
            }).collect();
            vs.push(J::O(vec![("name", s(v.name.to_string())), ("fields", J::A(fs))]));
        }
        let mut discr = vec![];
        if def.is_enum() {
            for (_i, d) in def.discriminants(self.tcx) { discr.push(n(d.val as i128)); }
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let g = self.generics(did);
        let o = J::O(vec![("id", s(self.id(did))), ("kind", s(kind)), ("generics", g), ("variants", J::A(vs)), ("discr", J::A(discr))]);
        self.adt_out.push(o);
    }
    fn generics(&mut self, did: DefId) -> J {
        let mut names = vec![];
        let mut cur = Some(did);
        let mut stack = vec![];
        while let Some(d) = cur { let g = self.tcx.generics_of(d); stack.push(d); cur = g.parent; }
        for d in stack.into_iter().rev() {
            let g = self.tcx.generics_of(d);
            for p in &g.own_params {
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) { names.push(s(p.name.to_string())); }
            }
        }
        J::A(names)
    }
    fn trait_(&mut self, did: DefId) {
        if self.traits.insert(did, ()).is_some() { return; }
        let mut items = vec![];
        for it in self.tcx.associated_items(did).in_definition_order() {
            let k = if it.is_fn() { "fn" } else if it.is_type() { "type" } else { "const" };
            items.push(J::A(vec![s(it.name().to_string()), s(self.id(it.def_id)), s(k), n(it.defaultness(self.tcx).has_value() as i128)]));
        }
        let g = self.generics(did);
        let o = J::O(vec![("id", s(self.id(did))), ("generics", g), ("items", J::A(items))]);
        self.trait_out.push(o);
    }
    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, l.line))
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        n(sm.lookup_char_pos(sp.lo()).line as i128)
    }
    fn hid(&self, h: rustc_hir::HirId) -> J { n(h.local_id.as_u32() as i128) }
    fn callee(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::FnDef(d, a) => {
                let d = *d;
                let a = a.skip_binder();
                let a = self.tcx.erase_and_anonymize_regions(a);
                let mut o = vec![("id", s(self.id(d))), ("args", self.args(a))];
                let tcx = self.tcx;
                // is it a trait item?
                if let Some(par) = tcx.opt_parent(d) {
                    if matches!(tcx.def_kind(par), DefKind::Trait) {
                        self.trait_(par);
                        o.push(("trait", s(self.id(par))));
                    }
                }
                o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    o.push(("ctor", n(1)));
                    let v = tcx.parent(d);
                    let (adt, vi) = if matches!(tcx.def_kind(v), DefKind::Variant) {
                        let adt = tcx.adt_def(tcx.parent(v));
                        (adt, adt.variant_index_with_id(v).as_usize())
                    } else { (tcx.adt_def(v), 0) };
                    self.adt(adt.did());
                    o.push(("adt", s(self.id(adt.did()))));
                    o.push(("vi", n(vi as i128)));
                }
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                    if let Some(b) = self.body_did {
                        if !a.has_escaping_bound_vars() {
                            let env = ty::TypingEnv::post_analysis(tcx, b);
                            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, a) {
                                let rd = inst.def_id();
                                if rd != d {
                                    o.push(("rid", s(self.id(rd))));
                                    let ra = tcx.erase_and_anonymize_regions(inst.args);
                                    o.push(("rargs", self.args(ra)));
                                }
                            }
                        }
                    }
                }
                J::O(o)
            }
            _ => J::Null,
        }
    }
    fn lit(&self, l: &rustc_ast::LitKind, neg: bool) -> J {
        use rustc_ast::LitKind::*;
        match l {
            Int(v, _) => { let v = v.get(); J::A(vec![s("int"), J::Raw(format!("{}{}", if neg { "-" } else { "" }, v))]) }
            Bool(b) => J::A(vec![s("bool"), n(*b as i128)]),
            Char(c) => J::A(vec![s("int"), n(*c as i128)]),
            Byte(c) => J::A(vec![s("int"), n(*c as i128)]),
            Str(x, _) => J::A(vec![s("str"), s(x.to_string())]),
            ByteStr(b, _) => J::A(vec![s("bytes"), J::A(b.as_byte_str().iter().map(|x| n(*x as i128)).collect())]),
            CStr(b, _) => J::A(vec![s("bytes"), J::A(b.as_byte_str().iter().map(|x| n(*x as i128)).collect())]),
            Float(x, _) => J::A(vec![s("float"), s(format!("{}{}", if neg { "-" } else { "" }, x))]),
            _ => J::A(vec![s("err")]),
        }
    }
    fn value(&mut self, v: ty::Value<'tcx>) -> J {
        let env = ty::TypingEnv::fully_monomorphized();
        if v.ty.is_bool() { return J::A(vec![s("bool"), n(v.try_to_bool().unwrap_or(false) as i128)]); }
        if let Some(b) = v.try_to_bits(self.tcx, env) {
            if let ty::Int(it) = v.ty.kind() {
                let bits = it.bit_width().unwrap_or(64);
                let sh = 128 - bits as u32;
                let sv = ((b << sh) as i128) >> sh;
                return J::A(vec![s("int"), J::Raw(sv.to_string())]);
            }
            return J::A(vec![s("int"), J::Raw(b.to_string())]);
        }
        if v.ty.is_ref() || matches!(v.ty.kind(), ty::Str) {
            if let Some(b) = v.try_to_raw_bytes(self.tcx) {
                if let Ok(x) = std::str::from_utf8(b) { return J::A(vec![s("str"), s(x)]); }
            }
        }
        J::A(vec![s("opaque"), s(format!("{v:?}"))])
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> J {
        let t = self.ty(p.ty);
        let mut o: Vec<(&'static str, J)> = vec![("t", n(t as i128))];
        match &p.kind {
            PatKind::Wild | PatKind::Missing => o.push(("k", s("wild"))),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                o.push(("k", s("bind")));
                o.push(("name", s(name.to_string())));
                o.push(("var", self.hid(var.0)));
                let br = match mode.0 { rustc_hir::ByRef::Yes(_, m) => if m.is_mut() { 2 } else { 1 }, rustc_hir::ByRef::No => 0 };
                o.push(("br", n(br)));
                if let Some(sp) = subpattern { let x = self.pat(sp); o.push(("sub", x)); }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                self.adt(adt_def.did());
                o.push(("k", s("variant")));
                o.push(("adt", s(self.id(adt_def.did()))));
                o.push(("vi", n(variant_index.as_usize() as i128)));
                let v = subpatterns.iter().map(|f| { let x = self.pat(&f.pattern); J::A(vec![n(f.field.as_usize() as i128), x]) }).collect();
                o.push(("subs", J::A(v)));
            }
            PatKind::Leaf { subpatterns } => {
                o.push(("k", s("leaf")));
                let v = subpatterns.iter().map(|f| { let x = self.pat(&f.pattern); J::A(vec![n(f.field.as_usize() as i128), x]) }).collect();
                o.push(("subs", J::A(v)));
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                o.push(("k", s("deref"))); let x = self.pat(subpattern); o.push(("sub", x));
            }
            PatKind::Constant { value } => { o.push(("k", s("const"))); let x = self.value(*value); o.push(("v", x)); }
            PatKind::Range(r) => {
                o.push(("k", s("range")));
                let ty = r.ty;
                let f = |d: &mut Self, b: &PatRangeBoundary<'tcx>| match b {
                    PatRangeBoundary::Finite(v) => d.value(ty::Value { ty, valtree: *v }),
                    _ => J::Null,
                };
                let lo = f(self, &r.lo); let hi = f(self, &r.hi);
                o.push(("lo", lo)); o.push(("hi", hi));
                o.push(("incl", n(matches!(r.end, rustc_hir::RangeEnd::Included) as i128)));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                o.push(("k", s("slice")));
                let v = prefix.iter().map(|x| self.pat(x)).collect(); o.push(("pre", J::A(v)));
                if let Some(x) = slice { let x = self.pat(x); o.push(("mid", x)); }
                let v = suffix.iter().map(|x| self.pat(x)).collect(); o.push(("suf", J::A(v)));
            }
            PatKind::Or { pats } => { o.push(("k", s("or"))); let v = pats.iter().map(|x| self.pat(x)).collect(); o.push(("pats", J::A(v))); }
            _ => o.push(("k", s("unsupported"))),
        }
        J::O(o)
    }
    fn expr(&mut self, th: &Thir<'tcx>, e: &Expr<'tcx>) -> J {
        let t = self.ty(e.ty);
        let mut o: Vec<(&'static str, J)> = vec![("t", n(t as i128)), ("l", self.line(e.span))];
        let ei = |x: &ExprId| n(x.as_usize() as i128);
        macro_rules! k { ($k:expr) => { o.push(("k", s($k))) } }
        match &e.kind {
            ExprKind::Scope { region_scope, value, .. } => { k!("scope"); o.push(("sc", n(region_scope.local_id.as_u32() as i128))); o.push(("v", ei(value))); }
            ExprKind::If { cond, then, else_opt, .. } => { k!("if"); o.push(("c", ei(cond))); o.push(("a", ei(then))); if let Some(x) = else_opt { o.push(("b", ei(x))); } }
            ExprKind::Call { ty, fun, args, .. } => {
                k!("call"); let c = self.callee(*ty); o.push(("callee", c)); o.push(("fun", ei(fun)));
                o.push(("args", J::A(args.iter().map(ei).collect())));
                if e.span.from_expansion() { o.push(("mx", n(1))); }
            }
            ExprKind::Deref { arg } => { k!("deref"); o.push(("v", ei(arg))); }
            ExprKind::Binary { op, lhs, rhs } => { k!("bin"); o.push(("op", s(binop(*op)))); o.push(("a", ei(lhs))); o.push(("b", ei(rhs))); }
            ExprKind::LogicalOp { op, lhs, rhs } => { k!("logic"); o.push(("op", s(match op { LogicalOp::And => "and", LogicalOp::Or => "or" }))); o.push(("a", ei(lhs))); o.push(("b", ei(rhs))); }
            ExprKind::Unary { op, arg } => { k!("un"); o.push(("op", s(format!("{op:?}")))); o.push(("v", ei(arg))); }
            ExprKind::Cast { source } => { k!("cast"); o.push(("v", ei(source))); }
            ExprKind::ByUse { expr: source, .. } | ExprKind::ValueExpr { source } | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source } | ExprKind::ValueUnwrapUnsafeBinder { source } | ExprKind::WrapUnsafeBinder { source } | ExprKind::Reborrow { source, .. } => { k!("use"); o.push(("v", ei(source))); }
            ExprKind::NeverToAny { source } => { k!("never"); o.push(("v", ei(source))); }
            ExprKind::PointerCoercion { source, cast, .. } => { k!("coerce"); o.push(("cast", s(format!("{cast:?}")))); o.push(("v", ei(source))); }
            ExprKind::Loop { body } => { k!("loop"); o.push(("v", ei(body))); }
            ExprKind::Let { expr, pat } => { k!("let"); o.push(("v", ei(expr))); let p = self.pat(pat); o.push(("p", p)); }
            ExprKind::Match { scrutinee, arms, match_source } => {
                k!("match"); o.push(("v", ei(scrutinee)));
                o.push(("src", s(format!("{match_source:?}").split('(').next().unwrap().to_string())));
                let v = arms.iter().map(|a| {
                    let a = &th.arms[*a];
                    let p = self.pat(&a.pattern);
                    let mut x = vec![("p", p), ("b", ei(&a.body))];
                    if let Some(g) = &a.guard { x.push(("g", ei(g))); }
                    J::O(x)
                }).collect();
                o.push(("arms", J::A(v)));
            }
            ExprKind::Block { block } => {
                k!("block");
                let b = &th.blocks[*block];
                self.block(th, b, &mut o);
            }
            ExprKind::Assign { lhs, rhs } => { k!("assign"); o.push(("a", ei(lhs))); o.push(("b", ei(rhs))); }
            ExprKind::AssignOp { op, lhs, rhs } => { k!("assignop"); o.push(("op", s(assignop(*op)))); o.push(("a", ei(lhs))); o.push(("b", ei(rhs))); }
            ExprKind::Field { lhs, variant_index, name } => { k!("field"); o.push(("v", ei(lhs))); o.push(("vi", n(variant_index.as_usize() as i128))); o.push(("f", n(name.as_usize() as i128))); }
            ExprKind::Index { lhs, index } => { k!("index"); o.push(("a", ei(lhs))); o.push(("b", ei(index))); }
            ExprKind::VarRef { id } => { k!("var"); o.push(("var", self.hid(id.0))); }
            ExprKind::UpvarRef { var_hir_id, .. } => { k!("upvar"); o.push(("var", self.hid(var_hir_id.0))); }
            ExprKind::Borrow { borrow_kind, arg } => { k!("borrow"); o.push(("m", n(matches!(borrow_kind, BorrowKind::Mut { .. }) as i128))); o.push(("v", ei(arg))); }
            ExprKind::RawBorrow { mutability, arg } => { k!("borrow"); o.push(("m", n(mutability.is_mut() as i128))); o.push(("raw", n(1))); o.push(("v", ei(arg))); }
            ExprKind::Break { label, value } => { k!("break"); o.push(("sc", n(label.local_id.as_u32() as i128))); if let Some(v) = value { o.push(("v", ei(v))); } }
            ExprKind::Continue { label } => { k!("continue"); o.push(("sc", n(label.local_id.as_u32() as i128))); }
            ExprKind::Return { value } => { k!("return"); if let Some(v) = value { o.push(("v", ei(v))); } }
            ExprKind::Repeat { value, count } => { k!("repeat"); o.push(("v", ei(value))); let c = self.cst(*count); o.push(("n", c)); }
            ExprKind::Array { fields } => { k!("array"); o.push(("vs", J::A(fields.iter().map(ei).collect()))); }
            ExprKind::Tuple { fields } => { k!("tuple"); o.push(("vs", J::A(fields.iter().map(ei).collect()))); }
            ExprKind::Adt(a) => {
                k!("adt"); self.adt(a.adt_def.did());
                o.push(("adt", s(self.id(a.adt_def.did())))); o.push(("vi", n(a.variant_index.as_usize() as i128)));
                o.push(("fs", J::A(a.fields.iter().map(|f| J::A(vec![n(f.name.as_usize() as i128), ei(&f.expr)])).collect())));
                if let AdtExprBase::Base(b) = &a.base { o.push(("base", ei(&b.base))); }
            }
            ExprKind::Closure(c) => { k!("closure"); o.push(("id", s(self.id(c.closure_id.to_def_id())))); }
            ExprKind::Literal { lit, neg } => { k!("lit"); o.push(("v", self.lit(&lit.node, *neg))); }
            ExprKind::NonHirLiteral { lit, .. } => { k!("lit"); o.push(("v", J::A(vec![s("int"), J::Raw(lit.to_bits(lit.size()).to_string())]))); }
            ExprKind::ZstLiteral { .. } => { k!("zst"); let c = self.callee(e.ty); o.push(("callee", c)); }
            ExprKind::NamedConst { def_id, args, .. } => {
                k!("const"); o.push(("id", s(self.id(*def_id)))); let p = self.path(*def_id); o.push(("path", s(p)));
                o.push(("args", self.args(args)));
                if let Some(par) = self.tcx.opt_parent(*def_id) {
                    if matches!(self.tcx.def_kind(par), DefKind::Trait) { self.trait_(par); o.push(("trait", s(self.id(par)))); }
                }
            }
            ExprKind::ConstParam { param, .. } => { k!("cparam"); o.push(("name", s(param.name.to_string()))); }
            ExprKind::StaticRef { def_id, .. } => { k!("static"); o.push(("id", s(self.id(*def_id)))); }
            ExprKind::ConstBlock { did, .. } => { k!("constblock"); o.push(("id", s(self.id(*did)))); }
            ExprKind::InlineAsm(_) => k!("asm"),
            _ => k!("unsupported"),
        }
        J::O(o)
    }
    fn block(&mut self, th: &Thir<'tcx>, b: &Block, o: &mut Vec<(&'static str, J)>) {
        let mut st = vec![];
        for sid in b.stmts.iter() {
            match &th.stmts[*sid].kind {
                StmtKind::Expr { expr, .. } => st.push(J::O(vec![("e", n(expr.as_usize() as i128))])),
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(pattern);
                    let mut x = vec![("p", p)];
                    if let Some(i) = initializer { x.push(("i", n(i.as_usize() as i128))); }
                    if let Some(eb) = else_block { let mut bo = vec![]; self.block(th, &th.blocks[*eb], &mut bo); x.push(("else", J::O(bo))); }
                    st.push(J::O(x));
                }
            }
        }
        o.push(("st", J::A(st)));
        if let Some(e) = b.expr { o.push(("e", n(e.as_usize() as i128))); }
        if b.targeted_by_break { o.push(("tb", n(b.region_scope.local_id.as_u32() as i128))); }
    }
    fn body(&mut self, did: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let (th, root) = tcx.thir_body(did).ok()?;
        if th.is_stolen() { return None; }
        let th = th.borrow();
        self.body_did = Some(tcx.typeck_root_def_id(did.to_def_id()).expect_local());
        let d = did.to_def_id();
        let mut o: Vec<(&'static str, J)> = vec![("id", s(self.id(d)))];
        let p = self.path(d);
        o.push(("path", s(p)));
        o.push(("kind", s(format!("{:?}", tcx.def_kind(d)))));
        o.push(("loc", self.loc(tcx.def_span(d))));
        o.push(("generics", self.generics(d)));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(d);
            o.push(("vis", s(if vis.is_public() { "pub" } else { "priv" })));
        }
        if let Some(par) = tcx.opt_parent(d) {
            if matches!(tcx.def_kind(par), DefKind::Impl { .. }) { o.push(("impl", s(self.id(par)))); }
            if matches!(tcx.def_kind(par), DefKind::Trait) { o.push(("trait", s(self.id(par)))); }
        }
        let ps = th.params.iter().map(|p| {
            let t = self.ty(p.ty);
            let mut x = vec![("t", n(t as i128))];
            if let Some(pt) = &p.pat { let pj = self.pat(pt); x.push(("p", pj)); }
            J::O(x)
        }).collect();
        o.push(("params", J::A(ps)));
        if let BodyTy::Fn(sig) = &th.body_type { let t = self.ty(sig.output()); o.push(("ret", n(t as i128))); }
        let es: Vec<J> = th.exprs.iter().map(|e| self.expr(&th, e)).collect();
        o.push(("exprs", J::A(es)));
        o.push(("root", n(root.as_usize() as i128)));
        Some(J::O(o))
    }
    fn impls(&mut self) -> Vec<J> {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) { 
                if matches!(tcx.def_kind(d), DefKind::Trait) { self.trait_(d); }
                continue;
            }
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let sti = self.ty(st);
            let g = self.generics(d);
            let mut o = vec![("id", s(self.id(d))), ("self", n(sti as i128)), ("generics", g)];
            if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                self.trait_(tr.def_id);
                o.push(("trait", s(self.id(tr.def_id))));
                let a = self.args(tr.args);
                o.push(("targs", a));
            }
            let mut items = vec![];
            for it in tcx.associated_items(d).in_definition_order() {
                let mut x = vec![s(it.name().to_string()), s(self.id(it.def_id))];
                if it.is_type() {
                    let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                    x.push(s("type")); let t = self.ty(t); x.push(n(t as i128));
                } else { x.push(s(if it.is_fn() { "fn" } else { "const" })); }
                items.push(J::A(x));
            }
            o.push(("items", J::A(items)));
            o.push(("loc", self.loc(tcx.def_span(d))));
            out.push(J::O(o));
        }
        out
    }
}

fn binop(op: BinOp) -> &'static str {
    use BinOp::*;
    match op { Add => "+", Sub => "-", Mul => "*", Div => "/", Rem => "%", BitXor => "^", BitAnd => "&", BitOr => "|", Shl => "<<", Shr => ">>",
        Eq => "==", Lt => "<", Le => "<=", Ne => "!=", Ge => ">=", Gt => ">", _ => "?" }
}
fn assignop(op: AssignOp) -> &'static str {
    use AssignOp::*;
    match op { AddAssign => "+", SubAssign => "-", MulAssign => "*", DivAssign => "/", RemAssign => "%", BitXorAssign => "^", BitAndAssign => "&", BitOrAssign => "|", ShlAssign => "<<", ShrAssign => ">>" }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("THIRDUMP_DIR") {
            let mut d = D { tcx, tys: HashMap::new(), ty_out: vec![], adts: HashMap::new(), adt_out: vec![], traits: HashMap::new(), trait_out: vec![], body_did: None };
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let kind = format!("{:?}", tcx.crate_types().first());
            let impls = d.impls();
            let mut fns = vec![];
            let mut skipped = 0;
            for did in tcx.hir_body_owners() {
                match d.body(did) { Some(j) => fns.push(j), None => skipped += 1 }
            }
            let o = J::O(vec![
                ("crate", s(name.clone())), ("kind", s(kind.clone())), ("skipped", n(skipped)),
                ("impls", J::A(impls)), ("fns", J::A(fns)), ("types", J::A(std::mem::take(&mut d.ty_out))),
                ("adts", J::A(std::mem::take(&mut d.adt_out))), ("traits", J::A(std::mem::take(&mut d.trait_out))),
            ]);
            let suffix = if kind.contains("Executable") { "bin" } else { "lib" };
            let path = format!("{dir}/{name}.{suffix}.json");
            let mut out = String::new();
            o.write(&mut out);
            let tmp = format!("{path}.tmp");
            std::fs::write(&tmp, out).expect("write dump");
            std::fs::rename(&tmp, &path).expect("rename dump");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // args[0] is now the real rustc path
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
