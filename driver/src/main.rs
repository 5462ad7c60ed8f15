// Dumps the type-checked program (THIR bodies with resolved callees, item signatures, struct
// layouts, statics, impls) of one crate as JSON.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::thir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J { S(String), N(i64), B(bool), Null, A(Vec<J>), O(Vec<(&'static str, J)>) }
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(s) => esc(s, o),
            J::N(n) => { let _ = write!(o, "{}", n); }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.w(o); }
                o.push('}');
            }
        }
    }
}
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
macro_rules! obj { ($($k:literal : $v:expr),* $(,)?) => { J::O(vec![$(($k, $v)),*]) } }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn key(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate);
        format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let exp = sp.from_expansion();
        let sp2 = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp2.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let mut mac = J::Null;
        if exp {
            if let Some(m) = sp.macro_backtrace().last() { mac = s(format!("{}", m.kind.descr())); }
        }
        obj! {"f": s(f), "l": J::N(lo.line as i64), "c": J::N(lo.col.0 as i64), "m": mac}
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() { let i = self.ty(t); v.push(J::N(i as i64)); }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let text = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let j = match t.kind() {
            ty::Bool => obj! {"k": s("bool"), "t": s(text)},
            ty::Char => obj! {"k": s("char"), "t": s(text)},
            ty::Int(_) => obj! {"k": s("int"), "t": s(text)},
            ty::Uint(_) => obj! {"k": s("uint"), "t": s(text)},
            ty::Float(_) => obj! {"k": s("float"), "t": s(text)},
            ty::Str => obj! {"k": s("str"), "t": s(text)},
            ty::Never => obj! {"k": s("never"), "t": s(text)},
            ty::Adt(d, a) => {
                let p = self.path(d.did());
                let al = self.args(a);
                obj! {"k": s("adt"), "n": s(p), "a": al, "local": J::B(d.did().is_local()), "enum": J::B(d.is_enum()), "t": s(text)}
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx).map(|x| J::N(x as i64)).unwrap_or(J::Null);
                obj! {"k": s("array"), "e": J::N(e as i64), "n": n, "t": s(text)}
            }
            ty::Slice(e) => { let e = self.ty(*e); obj! {"k": s("slice"), "e": J::N(e as i64), "t": s(text)} }
            ty::RawPtr(e, m) => { let e = self.ty(*e); obj! {"k": s("ptr"), "e": J::N(e as i64), "mut": J::B(m.is_mut()), "t": s(text)} }
            ty::Ref(_, e, m) => { let e = self.ty(*e); obj! {"k": s("ref"), "e": J::N(e as i64), "mut": J::B(m.is_mut()), "t": s(text)} }
            ty::FnDef(d, a) => {
                let p = self.path(*d);
                let al = self.args(a.skip_binder());
                obj! {"k": s("fndef"), "n": s(p), "a": al, "t": s(text)}
            }
            ty::Closure(d, _) => { let k = self.key(*d); obj! {"k": s("closure"), "n": s(k), "t": s(text)} }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| J::N(self.ty(x) as i64)).collect();
                obj! {"k": s("tuple"), "a": J::A(v), "t": s(text)}
            }
            ty::Param(p) => obj! {"k": s("param"), "n": s(p.name.to_string()), "t": s(text)},
            ty::Dynamic(..) => obj! {"k": s("dyn"), "t": s(text)},
            _ => obj! {"k": s("other"), "t": s(text)},
        };
        self.types[i] = j;
        i
    }
}

struct Body<'a, 'tcx> { cx: &'a mut Cx<'tcx>, th: Thir<'tcx>, owner: LocalDefId }

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn t(&mut self, t: Ty<'tcx>) -> J { J::N(self.cx.ty(t) as i64) }
    fn var(&self, v: LocalVarId) -> J { s(format!("{}.{}", self.cx.key(v.0.owner.to_def_id()), v.0.local_id.as_u32())) }
    fn scope(&self, r: rustc_middle::middle::region::Scope) -> J { J::N(r.local_id.as_u32() as i64) }
    fn callee(&mut self, t: Ty<'tcx>) -> J {
        if let ty::FnDef(d, a) = *t.kind() {
            let a = a.skip_binder();
            let tcx = self.cx.tcx;
            let env = TypingEnv::post_analysis(tcx, self.owner.to_def_id());
            let mut res = J::Null;
            let mut resk = J::Null;
            let dk = tcx.def_kind(d);
            let mut resargs = J::Null;
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let ea = tcx.erase_and_anonymize_regions(a);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, ea) {
                    if let ty::InstanceKind::Item(rd) = inst.def {
                        res = s(self.cx.path(rd));
                        resk = s(self.cx.key(rd));
                        resargs = self.cx.args(inst.args);
                    }
                }
            }
            let p = self.cx.path(d);
            let k = self.cx.key(d);
            let al = self.cx.args(a);
            let tr = match tcx.opt_associated_item(d).and_then(|ai| ai.trait_container(tcx)) { Some(t) => s(self.cx.path(t)), None => J::Null };
            let unsafe_ = if matches!(dk, DefKind::Fn | DefKind::AssocFn) { tcx.fn_sig(d).skip_binder().safety().is_unsafe() } else { false };
            let kind = format!("{:?}", dk);
            return obj! {"p": s(p), "k": s(k), "a": al, "rp": res, "rk": resk, "ra": resargs, "trait": tr, "unsafe": J::B(unsafe_), "dk": s(kind), "crate": s(tcx.crate_name(d.krate).to_string())};
        }
        J::Null
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> J {
        let ty = self.t(p.ty);
        match &p.kind {
            PatKind::Wild | PatKind::Missing => obj! {"k": s("wild")},
            PatKind::Binding { name, mode, var, subpattern, ty: bty, .. } => {
                let sub = match subpattern { Some(q) => self.pat(q), None => J::Null };
                let byref = match mode.0 {
                    rustc_hir::ByRef::No => J::Null,
                    rustc_hir::ByRef::Yes(_, m) => if m.is_mut() { s("mut") } else { s("ref") },
                };
                let bt = self.t(*bty);
                obj! {"k": s("bind"), "name": s(name.to_string()), "var": self.var(*var), "ref": byref, "mut": J::B(mode.1.is_mut()), "sub": sub, "ty": bt}
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let n = self.cx.path(adt_def.did());
                let vn = adt_def.variant(*variant_index).name.to_string();
                let v = subpatterns.iter().map(|f| { let q = self.pat(&f.pattern); J::A(vec![J::N(f.field.as_u32() as i64), q]) }).collect();
                obj! {"k": s("variant"), "adt": s(n), "v": s(vn), "sub": J::A(v), "ty": ty}
            }
            PatKind::Leaf { subpatterns } => {
                let v = subpatterns.iter().map(|f| { let q = self.pat(&f.pattern); J::A(vec![J::N(f.field.as_u32() as i64), q]) }).collect();
                obj! {"k": s("leaf"), "sub": J::A(v), "ty": ty}
            }
            PatKind::Deref { subpattern, .. } => { let q = self.pat(subpattern); obj! {"k": s("deref"), "sub": q} }
            PatKind::Constant { value } => {
                let txt = format!("{}", value);
                obj! {"k": s("const"), "v": s(txt), "ty": ty}
            }
            PatKind::Or { pats } => { let v = pats.iter().map(|q| self.pat(q)).collect(); obj! {"k": s("or"), "sub": J::A(v)} }
            PatKind::Range(r) => { let txt = format!("{}", r); obj! {"k": s("range"), "v": s(txt), "ty": ty} }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a = prefix.iter().map(|q| self.pat(q)).collect();
                let b = match slice { Some(q) => self.pat(q), None => J::Null };
                let c = suffix.iter().map(|q| self.pat(q)).collect();
                obj! {"k": s("slice"), "pre": J::A(a), "mid": b, "suf": J::A(c)}
            }
            _ => obj! {"k": s("other"), "d": s(format!("{:?}", p.kind))},
        }
    }
    fn block(&mut self, b: BlockId) -> J {
        let bl = self.th[b].clone();
        let mut v = vec![];
        for st in bl.stmts.iter() {
            let st = self.th[*st].clone();
            v.push(match st.kind {
                StmtKind::Expr { expr, .. } => obj! {"k": s("expr"), "e": self.expr(expr)},
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let p = self.pat(&pattern);
                    let i = match initializer { Some(e) => self.expr(e), None => J::Null };
                    let el = match else_block { Some(b) => self.block(b), None => J::Null };
                    obj! {"k": s("let"), "p": p, "i": i, "else": el, "s": self.cx.span(span)}
                }
            });
        }
        let e = match bl.expr { Some(e) => self.expr(e), None => J::Null };
        let us = matches!(bl.safety_mode, BlockSafety::ExplicitUnsafe(_));
        let sc = if bl.targeted_by_break { self.scope(bl.region_scope) } else { J::Null };
        obj! {"k": s("block"), "st": J::A(v), "e": e, "unsafe": J::B(us), "label": sc, "s": self.cx.span(bl.span)}
    }
    fn expr(&mut self, id: ExprId) -> J {
        let e = self.th[id].clone();
        let ty = self.t(e.ty);
        let sp = self.cx.span(e.span);
        macro_rules! o { ($k:literal $(, $n:literal : $v:expr)* $(,)?) => { J::O(vec![("k", s($k)) $(, ($n, $v))*, ("ty", ty), ("s", sp)]) } }
        match e.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                let inner = self.expr(value);
                // keep label scopes for loops/breaks
                if let ExprKind::Loop { .. } = self.th[value].kind {
                    let sc = self.scope(region_scope);
                    return o!("scope", "id": sc, "e": inner);
                }
                let sc = self.scope(region_scope);
                o!("scope", "id": sc, "e": inner)
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                let c = self.expr(cond); let t = self.expr(then);
                let el = match else_opt { Some(x) => self.expr(x), None => J::Null };
                o!("if", "c": c, "t": t, "e": el)
            }
            ExprKind::Call { ty: fty, fun, args, .. } => {
                let c = self.callee(fty);
                let f = if let J::Null = c { self.expr(fun) } else { J::Null };
                let a = args.iter().map(|x| self.expr(*x)).collect();
                o!("call", "c": c, "f": f, "a": J::A(a))
            }
            ExprKind::ByUse { expr, .. } => self.expr(expr),
            ExprKind::Deref { arg } => { let a = self.expr(arg); o!("deref", "e": a) }
            ExprKind::Binary { op, lhs, rhs } => { let l = self.expr(lhs); let r = self.expr(rhs); o!("bin", "op": s(format!("{:?}", op)), "l": l, "r": r) }
            ExprKind::LogicalOp { op, lhs, rhs } => { let l = self.expr(lhs); let r = self.expr(rhs); o!("logic", "op": s(format!("{:?}", op)), "l": l, "r": r) }
            ExprKind::Unary { op, arg } => { let a = self.expr(arg); o!("un", "op": s(format!("{:?}", op)), "e": a) }
            ExprKind::Cast { source } => { let a = self.expr(source); o!("cast", "e": a) }
            ExprKind::ValueExpr { source } => self.expr(source),
            ExprKind::NeverToAny { source } => { let a = self.expr(source); o!("never", "e": a) }
            ExprKind::PointerCoercion { cast, source, .. } => { let a = self.expr(source); o!("coerce", "c": s(format!("{:?}", cast)), "e": a) }
            ExprKind::Loop { body } => { let b = self.expr(body); o!("loop", "b": b) }
            ExprKind::Let { expr, pat } => { let a = self.expr(expr); let p = self.pat(&pat); o!("letc", "e": a, "p": p) }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let sc = self.expr(scrutinee);
                let mut v = vec![];
                for a in arms.iter() {
                    let arm = self.th[*a].clone();
                    let p = self.pat(&arm.pattern);
                    let g = match arm.guard { Some(g) => self.expr(g), None => J::Null };
                    let b = self.expr(arm.body);
                    v.push(obj! {"p": p, "g": g, "b": b});
                }
                o!("match", "e": sc, "arms": J::A(v), "src": s(format!("{:?}", match_source)))
            }
            ExprKind::Block { block } => { let b = self.block(block); o!("blk", "b": b) }
            ExprKind::Assign { lhs, rhs } => { let l = self.expr(lhs); let r = self.expr(rhs); o!("assign", "l": l, "r": r) }
            ExprKind::AssignOp { op, lhs, rhs } => { let l = self.expr(lhs); let r = self.expr(rhs); o!("assignop", "op": s(format!("{:?}", op)), "l": l, "r": r) }
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = self.th[lhs].ty;
                let mut fname = format!("{}", name.as_u32());
                if let ty::Adt(d, _) = lt.kind() { fname = d.variant(variant_index).fields[name].name.to_string(); }
                let l = self.expr(lhs);
                o!("field", "e": l, "n": s(fname))
            }
            ExprKind::Index { lhs, index } => { let l = self.expr(lhs); let i = self.expr(index); o!("index", "e": l, "i": i) }
            ExprKind::VarRef { id } => { let v = self.var(id); o!("var", "v": v) }
            ExprKind::UpvarRef { var_hir_id, .. } => { let v = self.var(var_hir_id); o!("upvar", "v": v) }
            ExprKind::Borrow { borrow_kind, arg } => {
                let m = matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. });
                let a = self.expr(arg);
                o!("borrow", "mut": J::B(m), "e": a)
            }
            ExprKind::RawBorrow { mutability, arg } => { let a = self.expr(arg); o!("rawborrow", "mut": J::B(mutability.is_mut()), "e": a) }
            ExprKind::Break { label, value } => { let l = self.scope(label); let v = match value { Some(x) => self.expr(x), None => J::Null }; o!("break", "label": l, "v": v) }
            ExprKind::Continue { label } => { let l = self.scope(label); o!("continue", "label": l) }
            ExprKind::Return { value } => { let v = match value { Some(x) => self.expr(x), None => J::Null }; o!("return", "v": v) }
            ExprKind::Repeat { value, count } => {
                let v = self.expr(value);
                let n = count.try_to_target_usize(self.cx.tcx).map(|x| J::N(x as i64)).unwrap_or(J::Null);
                o!("repeat", "e": v, "n": n)
            }
            ExprKind::Array { fields } => { let a = fields.iter().map(|x| self.expr(*x)).collect(); o!("array", "a": J::A(a)) }
            ExprKind::Tuple { fields } => { let a = fields.iter().map(|x| self.expr(*x)).collect(); o!("tuple", "a": J::A(a)) }
            ExprKind::Adt(ad) => {
                let n = self.cx.path(ad.adt_def.did());
                let var = ad.adt_def.variant(ad.variant_index);
                let vn = var.name.to_string();
                let mut v = vec![];
                for f in ad.fields.iter() {
                    let fname = var.fields[f.name].name.to_string();
                    let x = self.expr(f.expr);
                    v.push(J::A(vec![s(fname), x]));
                }
                let base = match &ad.base { AdtExprBase::Base(fi) => self.expr(fi.base), _ => J::Null };
                o!("adt", "n": s(n), "v": s(vn), "enum": J::B(ad.adt_def.is_enum()), "f": J::A(v), "base": base)
            }
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => self.expr(source),
            ExprKind::Closure(c) => {
                let k = self.cx.key(c.closure_id.to_def_id());
                let u = c.upvars.iter().map(|x| self.expr(*x)).collect();
                o!("closure", "key": s(k), "up": J::A(u))
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind;
                let (lk, v) = match lit.node {
                    LitKind::Int(n, _) => ("int", n.get().to_string()),
                    LitKind::Float(sy, _) => ("float", sy.to_string()),
                    LitKind::Bool(b) => ("bool", b.to_string()),
                    LitKind::Str(sy, _) => ("str", sy.to_string()),
                    LitKind::Char(c) => ("char", c.to_string()),
                    LitKind::Byte(b) => ("int", b.to_string()),
                    _ => ("other", format!("{:?}", lit.node)),
                };
                o!("lit", "lk": s(lk), "v": s(v), "neg": J::B(neg))
            }
            ExprKind::NonHirLiteral { lit, .. } => o!("lit", "lk": s("scalar"), "v": s(format!("{:?}", lit)), "neg": J::B(false)),
            ExprKind::ZstLiteral { .. } => { let c = self.callee(e.ty); o!("zst", "c": c) }
            ExprKind::NamedConst { def_id, args, .. } => {
                let p = self.cx.path(def_id); let k = self.cx.key(def_id); let a = self.cx.args(args);
                o!("const", "p": s(p), "key": s(k), "a": a)
            }
            ExprKind::StaticRef { def_id, .. } => { let p = self.cx.path(def_id); o!("static", "p": s(p)) }
            ExprKind::ThreadLocalRef(d) => { let p = self.cx.path(d); o!("static", "p": s(p)) }
            ExprKind::ConstBlock { did, .. } => { let p = self.cx.key(did); o!("constblock", "p": s(p)) }
            ExprKind::InlineAsm(_) => o!("asm"),
            ref k => { let d = format!("{:?}", k); o!("other", "d": s(d)) }
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("THIRDUMP_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let want = std::env::var("THIRDUMP_CRATES").unwrap_or_else(|_| "la".into());
        if !want.split(',').any(|w| w == name) { return Compilation::Continue; }
        let _ = tcx.ensure_ok().typeck_root_dummy();
        dump(tcx, &name, &out);
        Compilation::Continue
    }
}
trait Dummy { fn typeck_root_dummy(self); }
impl<T> Dummy for T { fn typeck_root_dummy(self) {} }

fn dump<'tcx>(tcx: TyCtxt<'tcx>, name: &str, out: &str) {
    let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new() };
    let ev = tcx.effective_visibilities(());
    let mut fns = vec![];
    let mut errs = vec![];
    for d in tcx.hir_body_owners() {
        let dk = tcx.def_kind(d);
        let key = cx.key(d.to_def_id());
        let path = cx.path(d.to_def_id());
        let r = tcx.thir_body(d);
        let (th, root) = match r { Ok(x) => x, Err(_) => { errs.push(s(key)); continue } };
        let th = th.borrow().clone();
        let mut meta: Vec<(&'static str, J)> = vec![];
        meta.push(("key", s(key)));
        meta.push(("path", s(path)));
        meta.push(("dk", s(format!("{:?}", dk))));
        let sp = tcx.def_span(d);
        meta.push(("span", cx.span(sp)));
        meta.push(("exported", J::B(ev.is_exported(d))));
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| J::N(cx.ty(*t) as i64)).collect();
            let o = cx.ty(sig.output());
            meta.push(("ins", J::A(ins)));
            meta.push(("out", J::N(o as i64)));
            meta.push(("unsafe", J::B(sig.safety().is_unsafe())));


            let gens = ty::GenericArgs::identity_for_item(tcx, d.to_def_id());
            let ga = cx.args(gens);
            meta.push(("gens", ga));
            // impl info
            if let Some(ai) = tcx.opt_associated_item(d.to_def_id()) {
                let imp = ai.container_id(tcx);
                if matches!(tcx.def_kind(imp), DefKind::Impl { .. }) {
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    meta.push(("self_ty", J::N(sti as i64)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let p = cx.path(tr.def_id);
                        let a = cx.args(tr.args);
                        meta.push(("impl_trait", s(p)));
                        meta.push(("trait_args", a));
                    }
                }
                meta.push(("name", s(tcx.item_name(d.to_def_id()).to_string())));
            } else {
                meta.push(("name", s(tcx.item_name(d.to_def_id()).to_string())));
            }
        }
        let mut b = Body { cx: &mut cx, th, owner: d };
        let params: Vec<Param<'tcx>> = b.th.params.iter().cloned().collect();
        let mut pv = vec![];
        for p in params {
            let t = b.t(p.ty);
            let pt = match &p.pat { Some(q) => b.pat(q), None => J::Null };
            pv.push(obj! {"ty": t, "p": pt});
        }
        let body = b.expr(root);
        meta.push(("params", J::A(pv)));
        meta.push(("body", body));
        fns.push(J::O(meta));
    }
    // structs, statics, impls
    let mut structs = vec![];
    let mut statics = vec![];
    let mut impls = vec![];
    let mut foreign = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let dk = tcx.def_kind(id);
        match dk {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(id);
                let mut fs = vec![];
                for v in ad.variants() { for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(t);
                    let pubf = tcx.visibility(f.did).is_public();
                    fs.push(obj! {"n": s(f.name.to_string()), "ty": J::N(ti as i64), "pub": J::B(pubf), "var": s(v.name.to_string())});
                } }
                let p = cx.path(id.to_def_id());
                structs.push(obj! {"path": s(p), "dk": s(format!("{:?}", dk)), "f": J::A(fs), "exported": J::B(ev.is_exported(id))});
            }
            DefKind::Static { .. } => {
                let p = cx.path(id.to_def_id());
                let sp = cx.span(tcx.def_span(id));
                statics.push(obj! {"path": s(p), "s": sp, "dk": s(format!("{:?}", dk))});
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let sti = cx.ty(st);
                let mut tp = J::Null;
                let mut ta = J::Null;
                let mut safety = false;
                if let Some(tr) = tcx.impl_opt_trait_ref(id.to_def_id()) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    tp = s(cx.path(tr.def_id));
                    ta = cx.args(tr.args);
                    safety = tcx.impl_trait_header(id.to_def_id()).safety.is_unsafe();
                }
                let sp = cx.span(tcx.def_span(id));
                impls.push(obj! {"self": J::N(sti as i64), "trait": tp, "args": ta, "unsafe": J::B(safety), "s": sp});
            }
            DefKind::ForeignMod => { let sp = cx.span(tcx.def_span(id)); foreign.push(sp); }
            _ => {}
        }
    }
    let j = obj! {"crate": s(name), "types": J::A(cx.types), "fns": J::A(fns), "structs": J::A(structs), "statics": J::A(statics), "impls": J::A(impls), "foreign": J::A(foreign), "errors": J::A(errs)};
    let mut o = String::new();
    j.w(&mut o);
    let p = format!("{}/{}.json", out, name);
    std::fs::write(&p, o).expect("write dump");
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc path as argv[1]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
