//! Dumps the typed, resolved THIR of the crate being compiled to JSON.
//! Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;

fn s(x: impl ToString) -> J {
    J::S(x.to_string())
}
fn n(x: usize) -> J {
    J::N(x as i64)
}
fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(a, b)| (a.to_string(), b)).collect())
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)));
    // several local helper types of a function may share a name
    let k = tcx.def_kind(d);
    if d.is_local() && matches!(k, DefKind::Struct) && tcx.item_name(d).as_str().starts_with("__") {
        return format!("{}@{}", p, tcx.def_path(d).to_string_no_crate_verbose());
    }
    p
}
/// Stable key of a body-owning definition.
fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    let k = tcx.def_kind(d);
    if let DefKind::Closure | DefKind::AnonConst = k {
        return format!("{}", tcx.def_path(d).to_string_no_crate_verbose());
    }
    if let DefKind::AssocFn = k {
        if let Some(i) = tcx.impl_of_assoc(d) {
            if let ty::Adt(a, _) = tcx.type_of(i).instantiate_identity().skip_norm_wip().kind() {
                if a.did().is_local() && tcx.item_name(a.did()).as_str().starts_with("__") {
                    return format!("{}@{}", path(tcx, d), tcx.def_path(a.did()).to_string_no_crate_verbose());
                }
            }
        }
    }
    path(tcx, d)
}

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return n(*i);
        }
        let tcx = self.tcx;
        let j = match t.kind() {
            ty::Adt(a, args) => {
                let p = path(tcx, a.did());
                let a2 = self.gargs(args);
                obj(vec![("k", s("adt")), ("p", s(p)), ("a", a2), ("local", J::B(a.did().is_local()))])
            }
            ty::Ref(_, t, m) => {
                let x = self.ty(*t);
                obj(vec![("k", s("ref")), ("t", x), ("m", J::B(m.is_mut()))])
            }
            ty::Slice(t) => {
                let x = self.ty(*t);
                obj(vec![("k", s("slice")), ("t", x)])
            }
            ty::Array(t, l) => {
                let x = self.ty(*t);
                obj(vec![("k", s("array")), ("t", x), ("n", s(format!("{}", l)))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                obj(vec![("k", s("tuple")), ("a", J::A(v))])
            }
            ty::Param(p) => obj(vec![("k", s("param")), ("n", s(p.name))]),
            ty::Int(i) => obj(vec![("k", s("int")), ("n", s(i.name_str()))]),
            ty::Uint(i) => obj(vec![("k", s("int")), ("n", s(i.name_str()))]),
            ty::Bool => obj(vec![("k", s("bool"))]),
            ty::Str => obj(vec![("k", s("str"))]),
            ty::Char => obj(vec![("k", s("char"))]),
            ty::Never => obj(vec![("k", s("never"))]),
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let p = path(tcx, *d);
                let a2 = self.gargs(args);
                obj(vec![("k", s("fndef")), ("p", s(p)), ("a", a2)])
            }
            ty::Closure(d, _) => obj(vec![("k", s("closure")), ("p", s(key(tcx, *d)))]),
            ty::Alias(..) => {
                let st = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
                obj(vec![("k", s("alias")), ("n", s(st))])
            }
            _ => obj(vec![("k", s("other")), ("n", s(with_no_trimmed_paths!(t.to_string())))]),
        };
        let mut o = match j {
            J::O(o) => o,
            _ => unreachable!(),
        };
        o.push(("s".to_string(), s(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))));
        let i = self.types.len();
        self.types.push(J::O(o));
        self.tymap.insert(t, i);
        n(i)
    }
    fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(self.ty(t));
            } else if x.as_const().is_some() {
                v.push(s(format!("{}", x)));
            }
        }
        J::A(v)
    }
    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        s(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn fnref(&mut self, owner: LocalDefId, d: DefId, args: GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o = vec![("callee", s(path(tcx, d)))];
        o.push(("args_t", self.gargs(args)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
        }
        let te = ty::TypingEnv::non_body_analysis(tcx, owner);
        let eargs = tcx.erase_and_anonymize_regions(args);
        let r = ty::Instance::try_resolve(tcx, te, d, eargs);
        if let Ok(Some(i)) = r {
            let rd = i.def_id();
            if let ty::InstanceKind::Item(_) = i.def {
                o.push(("res", s(key(tcx, rd))));
                o.push(("res_local", J::B(rd.is_local())));
                if rd.is_local() {
                    let ra = self.gargs(i.args);
                    o.push(("res_args", ra));
                    o.push(("res_gen", J::A(self.gens(rd))));
                }
            }
        }
        if d.is_local() {
            o.push(("gen", J::A(self.gens(d))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", s(path(tcx, tcx.parent(d)))));
        }
        o
    }
    fn gens(&self, d: DefId) -> Vec<J> {
        let tcx = self.tcx;
        let mut v = vec![];
        fn rec(tcx: TyCtxt<'_>, d: DefId, v: &mut Vec<J>) {
            let g = tcx.generics_of(d);
            if let Some(p) = g.parent {
                rec(tcx, p, v);
            }
            for p in &g.own_params {
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => {}
                    _ => v.push(s(p.name)),
                }
            }
        }
        rec(tcx, d, &mut v);
        v
    }
    fn block(&mut self, o: LocalDefId, th: &Thir<'tcx>, b: BlockId) -> J {
        let bl = &th[b];
        let mut v = vec![];
        for st in bl.stmts.iter() {
            match &th[*st].kind {
                StmtKind::Expr { expr, .. } => {
                    let e = self.ex(o, th, *expr);
                    v.push(obj(vec![("s", s("expr")), ("e", e)]));
                }
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let p = self.pat(o, th, pattern);
                    let i = initializer.map(|e| self.ex(o, th, e)).unwrap_or(J::Null);
                    let e = else_block.map(|b| self.block(o, th, b)).unwrap_or(J::Null);
                    v.push(obj(vec![("s", s("let")), ("p", p), ("i", i), ("else", e), ("l", self.loc(*span))]));
                }
            }
        }
        let e = bl.expr.map(|e| self.ex(o, th, e)).unwrap_or(J::Null);
        obj(vec![
            ("k", s("block")),
            ("stmts", J::A(v)),
            ("e", e),
            ("label", if bl.targeted_by_break { s(format!("{:?}", bl.region_scope)) } else { J::Null }),
        ])
    }
    fn exs(&mut self, o: LocalDefId, th: &Thir<'tcx>, es: &[ExprId]) -> J {
        J::A(es.iter().map(|e| self.ex(o, th, *e)).collect())
    }
    fn opt(&mut self, o: LocalDefId, th: &Thir<'tcx>, e: &Option<ExprId>) -> J {
        match e {
            Some(e) => self.ex(o, th, *e),
            None => J::Null,
        }
    }
    fn fieldname(&self, t: Ty<'tcx>, v: rustc_abi::VariantIdx, f: usize) -> String {
        if let ty::Adt(a, _) = t.kind() {
            if v.as_usize() < a.variants().len() {
                let fs = &a.variant(v).fields;
                if f < fs.len() {
                    return fs[rustc_abi::FieldIdx::from_usize(f)].name.to_string();
                }
            }
        }
        f.to_string()
    }
    fn ex(&mut self, o: LocalDefId, th: &Thir<'tcx>, id: ExprId) -> J {
        let e = &th[id];
        let tcx = self.tcx;
        let mut r: Vec<(&str, J)> = match &e.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                let j = self.ex(o, th, *value);
                // keep the scope id for break/continue targets on loops
                if let J::O(mut v) = j {
                    if v.iter().any(|(k, x)| k == "k" && matches!(x, J::S(q) if q == "loop")) {
                        let id = s(format!("{:?}", region_scope));
                        match v.iter_mut().find(|(k, _)| k == "labels") {
                            Some((_, J::A(l))) => l.push(id),
                            _ => v.push(("labels".to_string(), J::A(vec![id]))),
                        }
                    }
                    return J::O(v);
                }
                return j;
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                let c = self.ex(o, th, *cond);
                let t = self.ex(o, th, *then);
                let el = self.opt(o, th, else_opt);
                vec![("k", s("if")), ("c", c), ("th", t), ("e", el)]
            }
            ExprKind::Call { ty: fty, fun, args, .. } => {
                let a = self.exs(o, th, args);
                let mut v = vec![("k", s("call"))];
                if let ty::FnDef(d, ga) = fty.kind() {
                    let ga = ga.no_bound_vars().unwrap_or_else(|| ga.skip_binder());
                    v.extend(self.fnref(o, *d, ga));
                } else {
                    let f = self.ex(o, th, *fun);
                    v.push(("fun", f));
                }
                v.push(("args", a));
                v
            }
            ExprKind::ByUse { expr, .. } => return self.ex(o, th, *expr),
            ExprKind::Deref { arg } => {
                let a = self.ex(o, th, *arg);
                vec![("k", s("deref")), ("a", a)]
            }
            ExprKind::Binary { op, lhs, rhs } => {
                let (a, b) = (self.ex(o, th, *lhs), self.ex(o, th, *rhs));
                vec![("k", s("bin")), ("op", s(format!("{:?}", op))), ("x", a), ("y", b)]
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                let (a, b) = (self.ex(o, th, *lhs), self.ex(o, th, *rhs));
                vec![("k", s("logic")), ("op", s(format!("{:?}", op))), ("x", a), ("y", b)]
            }
            ExprKind::Unary { op, arg } => {
                let a = self.ex(o, th, *arg);
                vec![("k", s("un")), ("op", s(format!("{:?}", op))), ("a", a)]
            }
            ExprKind::Cast { source } => {
                let st = self.ty(th[*source].ty);
                let a = self.ex(o, th, *source);
                vec![("k", s("cast")), ("a", a), ("from", st)]
            }
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source } => return self.ex(o, th, *source),
            ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => return self.ex(o, th, *source),
            ExprKind::PointerCoercion { source, cast, .. } => {
                let a = self.ex(o, th, *source);
                vec![("k", s("coerce")), ("c", s(format!("{:?}", cast))), ("a", a)]
            }
            ExprKind::Loop { body } => {
                let a = self.ex(o, th, *body);
                vec![("k", s("loop")), ("b", a)]
            }
            ExprKind::Let { expr, pat } => {
                let a = self.ex(o, th, *expr);
                let p = self.pat(o, th, pat);
                vec![("k", s("let")), ("e", a), ("p", p)]
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let a = self.ex(o, th, *scrutinee);
                let mut v = vec![];
                for ar in arms.iter() {
                    let ar = &th[*ar];
                    let p = self.pat(o, th, &ar.pattern);
                    let g = self.opt(o, th, &ar.guard);
                    let b = self.ex(o, th, ar.body);
                    v.push(obj(vec![("p", p), ("g", g), ("b", b)]));
                }
                let src = format!("{:?}", match_source);
                let src = src.split('(').next().unwrap().to_string();
                vec![("k", s("match")), ("e", a), ("arms", J::A(v)), ("src", s(src))]
            }
            ExprKind::Block { block } => match self.block(o, th, *block) {
                J::O(v) => {
                    let mut v = v;
                    let t = self.ty(e.ty);
                    v.push(("t".to_string(), t));
                    v.push(("l".to_string(), self.loc(e.span)));
                    return J::O(v);
                }
                _ => unreachable!(),
            },
            ExprKind::Assign { lhs, rhs } => {
                let (a, b) = (self.ex(o, th, *lhs), self.ex(o, th, *rhs));
                vec![("k", s("assign")), ("x", a), ("y", b)]
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                let (a, b) = (self.ex(o, th, *lhs), self.ex(o, th, *rhs));
                vec![("k", s("assignop")), ("op", s(format!("{:?}", op))), ("x", a), ("y", b)]
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let nm = self.fieldname(th[*lhs].ty, *variant_index, name.as_usize());
                let a = self.ex(o, th, *lhs);
                vec![("k", s("field")), ("a", a), ("n", s(nm)), ("v", n(variant_index.as_usize())), ("i", n(name.as_usize()))]
            }
            ExprKind::Index { lhs, index } => {
                let (a, b) = (self.ex(o, th, *lhs), self.ex(o, th, *index));
                vec![("k", s("index")), ("a", a), ("i", b)]
            }
            ExprKind::VarRef { id } => vec![("k", s("var")), ("id", s(format!("{:?}", id.0))), ("n", s(tcx.hir_name(id.0)))],
            ExprKind::UpvarRef { var_hir_id, .. } => {
                vec![("k", s("upvar")), ("id", s(format!("{:?}", var_hir_id.0))), ("n", s(tcx.hir_name(var_hir_id.0)))]
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                let a = self.ex(o, th, *arg);
                let m = matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. });
                vec![("k", s("borrow")), ("m", J::B(m)), ("a", a)]
            }
            ExprKind::RawBorrow { arg, .. } => {
                let a = self.ex(o, th, *arg);
                vec![("k", s("rawborrow")), ("a", a)]
            }
            ExprKind::Reborrow { source, .. } => return self.ex(o, th, *source),
            ExprKind::Break { label, value } => {
                let v = self.opt(o, th, value);
                vec![("k", s("break")), ("label", s(format!("{:?}", label))), ("v", v)]
            }
            ExprKind::Continue { label } => vec![("k", s("continue")), ("label", s(format!("{:?}", label)))],
            ExprKind::Return { value } => {
                let v = self.opt(o, th, value);
                vec![("k", s("return")), ("v", v)]
            }
            ExprKind::Array { fields } => {
                let v = self.exs(o, th, fields);
                vec![("k", s("array")), ("f", v)]
            }
            ExprKind::Tuple { fields } => {
                let v = self.exs(o, th, fields);
                vec![("k", s("tuple")), ("f", v)]
            }
            ExprKind::Repeat { value, count } => {
                let v = self.ex(o, th, *value);
                vec![("k", s("repeat")), ("v", v), ("n", s(format!("{}", count)))]
            }
            ExprKind::Adt(a) => {
                let var = a.adt_def.variant(a.variant_index);
                let mut fs = vec![];
                for f in a.fields.iter() {
                    let v = self.ex(o, th, f.expr);
                    let nm = var.fields[f.name].name.to_string();
                    fs.push(J::A(vec![s(nm), v]));
                }
                let (base, defaults) = match &a.base {
                    AdtExprBase::None => (J::Null, false),
                    AdtExprBase::Base(b) => (self.ex(o, th, b.base), false),
                    AdtExprBase::DefaultFields(_) => (J::Null, true),
                };
                vec![
                    ("k", s("adt")),
                    ("p", s(path(tcx, a.adt_def.did()))),
                    ("v", s(var.name)),
                    ("vi", n(a.variant_index.as_usize())),
                    ("enum", J::B(a.adt_def.is_enum())),
                    ("f", J::A(fs)),
                    ("base", base),
                    ("deff", J::B(defaults)),
                ]
            }
            ExprKind::Closure(c) => {
                let ups = self.exs(o, th, &c.upvars);
                vec![("k", s("closure")), ("p", s(key(tcx, c.closure_id.to_def_id()))), ("up", ups)]
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                let (a, b) = match &lit.node {
                    Str(x, _) => ("str", s(x)),
                    ByteStr(x, _) => ("bytes", J::A(x.as_byte_str().iter().map(|b| n(*b as usize)).collect())),
                    CStr(..) => ("cstr", J::Null),
                    Byte(b) => ("int", s(*b as u128)),
                    Char(c) => ("char", s(c)),
                    Int(i, _) => ("int", s(if *neg { format!("-{}", i.get()) } else { i.get().to_string() })),
                    Float(x, _) => ("float", s(x)),
                    Bool(b) => ("bool", J::B(*b)),
                    Err(_) => ("err", J::Null),
                };
                vec![("k", s("lit")), ("lk", s(a)), ("v", b)]
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                vec![("k", s("lit")), ("lk", s("int")), ("v", s(lit.to_bits_unchecked()))]
            }
            ExprKind::ZstLiteral { .. } => {
                let mut v = vec![("k", s("zst"))];
                if let ty::FnDef(d, ga) = e.ty.kind() {
                    let ga = ga.no_bound_vars().unwrap_or_else(|| ga.skip_binder());
                    v.extend(self.fnref(o, *d, ga));
                }
                v
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                let mut v = vec![("k", s("const"))];
                v.extend(self.fnref(o, *def_id, args));
                let te = ty::TypingEnv::non_body_analysis(tcx, o);
                let eargs = tcx.erase_and_anonymize_regions(*args);
                let uv = rustc_middle::mir::UnevaluatedConst::new(*def_id, eargs);
                if !rustc_middle::ty::TypeVisitableExt::has_param(&eargs) {
                    if let Ok(c) = tcx.const_eval_resolve(te, uv, e.span) {
                        if let Some(sc) = c.try_to_scalar_int() {
                            v.push(("val", s(sc.to_bits_unchecked())));
                        }
                    }
                }
                v
            }
            ExprKind::ConstParam { param, .. } => vec![("k", s("constparam")), ("n", s(param.name))],
            ExprKind::StaticRef { def_id, .. } => vec![("k", s("static")), ("p", s(path(tcx, *def_id)))],
            ExprKind::ThreadLocalRef(d) => vec![("k", s("static")), ("p", s(path(tcx, *d)))],
            ExprKind::ConstBlock { did, .. } => vec![("k", s("constblock")), ("p", s(key(tcx, *did)))],
            other => {
                let d = format!("{:?}", other);
                vec![("k", s("unsupported")), ("what", s(d.chars().take(60).collect::<String>()))]
            }
        };
        let t = self.ty(e.ty);
        r.push(("t", t));
        r.push(("l", self.loc(e.span)));
        obj(r)
    }
    fn pats<'a>(&mut self, o: LocalDefId, th: &Thir<'tcx>, ps: impl Iterator<Item = &'a Pat<'tcx>>) -> J
    where
        'tcx: 'a,
    {
        J::A(ps.map(|p| self.pat(o, th, p)).collect())
    }
    fn pat(&mut self, o: LocalDefId, th: &Thir<'tcx>, p: &Pat<'tcx>) -> J {
        let tcx = self.tcx;
        let mut r: Vec<(&str, J)> = match &p.kind {
            PatKind::Missing | PatKind::Wild | PatKind::Never => vec![("k", s("wild"))],
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let sp = subpattern.as_ref().map(|p| self.pat(o, th, p)).unwrap_or(J::Null);
                let by = match mode.0 {
                    rustc_hir::ByRef::No => "move",
                    m if format!("{:?}", m).contains("Mut") => "ref mut",
                    _ => "ref",
                };
                vec![("k", s("bind")), ("n", s(name)), ("id", s(format!("{:?}", var.0))), ("by", s(by)), ("sub", sp)]
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let var = adt_def.variant(*variant_index);
                let mut fs = vec![];
                for f in subpatterns {
                    let q = self.pat(o, th, &f.pattern);
                    fs.push(J::A(vec![s(var.fields[f.field].name), q]));
                }
                vec![
                    ("k", s("variant")),
                    ("p", s(path(tcx, adt_def.did()))),
                    ("v", s(var.name)),
                    ("vi", n(variant_index.as_usize())),
                    ("f", J::A(fs)),
                ]
            }
            PatKind::Leaf { subpatterns } => {
                let mut fs = vec![];
                for f in subpatterns {
                    let nm = self.fieldname(p.ty, rustc_abi::VariantIdx::from_usize(0), f.field.as_usize());
                    let q = self.pat(o, th, &f.pattern);
                    fs.push(J::A(vec![s(nm), q]));
                }
                vec![("k", s("leaf")), ("f", J::A(fs))]
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                let q = self.pat(o, th, subpattern);
                vec![("k", s("deref")), ("p", q)]
            }
            PatKind::Constant { value } => {
                let mut v = vec![("k", s("const")), ("s", s(with_no_trimmed_paths!(value.to_string())))];
                if let Some(l) = value.valtree.try_to_leaf() {
                    v.push(("val", s(l.to_bits_unchecked())));
                }
                v
            }
            PatKind::Range(rg) => {
                let b = |x: &PatRangeBoundary<'tcx>| match x {
                    PatRangeBoundary::Finite(v) => v.try_to_leaf().map(|l| s(l.to_bits_unchecked())).unwrap_or(J::Null),
                    _ => J::Null,
                };
                vec![
                    ("k", s("range")),
                    ("lo", b(&rg.lo)),
                    ("hi", b(&rg.hi)),
                    ("incl", J::B(matches!(rg.end, rustc_hir::RangeEnd::Included))),
                ]
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a = self.pats(o, th, prefix.iter());
                let b = slice.as_ref().map(|p| self.pat(o, th, p)).unwrap_or(J::Null);
                let c = self.pats(o, th, suffix.iter());
                vec![("k", s("slice")), ("pre", a), ("mid", b), ("suf", c)]
            }
            PatKind::Or { pats } => {
                let a = self.pats(o, th, pats.iter());
                vec![("k", s("or")), ("ps", a)]
            }
            PatKind::Guard { subpattern, condition } => {
                let a = self.pat(o, th, subpattern);
                let c = self.ex(o, th, *condition);
                vec![("k", s("guard")), ("p", a), ("c", c)]
            }
            PatKind::Error(_) => vec![("k", s("error"))],
        };
        let t = self.ty(p.ty);
        r.push(("t", t));
        obj(r)
    }
    fn body(&mut self, did: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let kind = tcx.def_kind(did);
        let Ok((thir, root)) = tcx.thir_body(did) else { return None };
        let th = &*thir.borrow();
        if th.exprs.is_empty() {
            return None;
        }
        let mut ps = vec![];
        for p in th.params.iter() {
            let t = self.ty(p.ty);
            let pt = p.pat.as_ref().map(|p| self.pat(did, th, p)).unwrap_or(J::Null);
            ps.push(obj(vec![("p", pt), ("t", t)]));
        }
        let e = self.ex(did, th, root);
        let d = did.to_def_id();
        let mut o = vec![
            ("key", s(key(tcx, d))),
            ("kind", s(format!("{:?}", kind).split(['(', ' ']).next().unwrap())),
            ("gen", J::A(self.gens(d))),
            ("params", J::A(ps)),
            ("body", e),
            ("l", self.loc(tcx.def_span(d))),
            ("mac", J::B(tcx.def_span(d).from_expansion())),
        ];
        if let DefKind::Fn | DefKind::AssocFn = kind {
            o.push(("vis", J::B(tcx.effective_visibilities(()).is_reachable(did))));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let rt = self.ty(sig.output());
            o.push(("ret", rt));
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            o.push(("name", s(tcx.item_name(d))));
            let par = tcx.parent(d);
            if let DefKind::Impl { .. } = tcx.def_kind(par) {
                let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                o.push(("impl_self", st));
                if let Some(tr) = tcx.impl_opt_trait_ref(par) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", s(path(tcx, tr.def_id))));
                    o.push(("impl_trait_s", s(with_no_visible_paths!(with_no_trimmed_paths!(tr.to_string())))));
                    o.push(("derived", J::B(tcx.is_automatically_derived(par))));
                }
            }
        }
        Some(obj(o))
    }
    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut bodies = vec![];
        for did in tcx.hir_body_owners() {
            if let Some(j) = self.body(did) {
                bodies.push(j);
            }
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in a.variants() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let ft = self.ty(ft);
                            fs.push(obj(vec![("n", s(f.name)), ("t", ft), ("pub", J::B(f.vis.is_public()))]));
                        }
                        vs.push(obj(vec![("n", s(v.name)), ("f", J::A(fs))]));
                    }
                    adts.push(obj(vec![
                        ("p", s(path(tcx, d))),
                        ("enum", J::B(a.is_enum())),
                        ("gen", J::A(self.gens(d))),
                        ("variants", J::A(vs)),
                        ("l", self.loc(tcx.def_span(d))),
                        ("vis", J::B(tcx.effective_visibilities(()).is_reachable(id))),
                        ("needs_drop", J::B(tcx.adt_destructor(d).is_some())),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    let mut o = vec![("self", st), ("l", self.loc(tcx.def_span(d)))];
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(path(tcx, tr.def_id))));
                        o.push(("trait_s", s(with_no_visible_paths!(with_no_trimmed_paths!(tr.to_string())))));
                        o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                    }
                    let it: Vec<J> = tcx.associated_item_def_ids(d).iter().map(|x| s(key(tcx, *x))).collect();
                    o.push(("items", J::A(it)));
                    impls.push(obj(o));
                }
                DefKind::Static { .. } => {
                    items.push(obj(vec![("k", s("static")), ("p", s(path(tcx, d))), ("l", self.loc(tcx.def_span(d)))]));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    items.push(obj(vec![
                        ("k", s("fn")),
                        ("p", s(key(tcx, d))),
                        ("vis", J::B(tcx.effective_visibilities(()).is_reachable(id))),
                        ("l", self.loc(tcx.def_span(d))),
                    ]));
                }
                _ => {}
            }
        }
        obj(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
            ("types", J::A(std::mem::take(&mut self.types))),
            ("bodies", J::A(bodies)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("items", J::A(items)),
        ])
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = D { tcx, types: vec![], tymap: HashMap::new() };
        let j = d.run();
        let mut o = String::new();
        j.write(&mut o);
        let tmp = format!("{}.tmp.{}", self.out, std::process::id());
        std::fs::write(&tmp, o).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [thirdump, rustc, ...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("THIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("THIRDUMP_OUT").unwrap_or_default();
    let code = rustc_driver::catch_with_exit_code(|| {
        if crate_name.as_deref() == Some(want.as_str()) && !out.is_empty() {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain)
        }
    });
    code
}
