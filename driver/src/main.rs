//! THIR extractor: a rustc driver that type-checks one crate with the build's
//! own flags and writes its typed, name-resolved bodies as JSON.  It decides
//! nothing; the rules live in /verif/sa.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_ast::ast::LitKind;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::{self, ExprKind, PatKind, StmtKind};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl ToString) -> J {
    J::S(x.to_string())
}
fn n(x: usize) -> J {
    J::N(x as i64)
}
fn esc(x: &str, out: &mut String) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(i) => {
                let _ = write!(out, "{}", i);
            }
            J::S(x) => esc(x, out),
            J::A(v) => {
                out.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    e.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    e.w(out);
                }
                out.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn did(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate);
        format!("{}{}", krate, tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.to_string_lossy().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        J::S(format!("{}:{}", f, lo.line))
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("n", s(i.name_str())));
            }
            ty::Uint(i) => {
                o.push(("k", s("int")));
                o.push(("n", s(i.name_str())));
            }
            ty::Float(f) => {
                o.push(("k", s("float")));
                o.push(("n", s(f.name_str())));
            }
            ty::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", self.ty(*t)));
            }
            ty::RawPtr(t, _) => {
                o.push(("k", s("ptr")));
                o.push(("t", self.ty(*t)));
            }
            ty::Slice(t) => {
                o.push(("k", s("slice")));
                o.push(("t", self.ty(*t)));
            }
            ty::Array(t, c) => {
                o.push(("k", s("array")));
                o.push(("t", self.ty(*t)));
                o.push(("len", s(c)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                o.push(("ts", J::A(ts.iter().map(|t| self.ty(t)).collect())));
            }
            ty::Adt(a, args) => {
                o.push(("k", s("adt")));
                o.push(("d", s(self.did(a.did()))));
                o.push(("p", s(self.tcx.def_path_str(a.did()))));
                o.push(("a", J::A(args.types().map(|t| self.ty(t)).collect())));
                o.push(("c", J::A(args.consts().map(|t| s(t)).collect())));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name)));
            }
            ty::FnDef(d, _args) => {
                o.push(("k", s("fndef")));
                o.push(("d", s(self.did(*d))));
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("d", s(self.did(*d))));
            }
            _ => {
                o.push(("k", s("other")));
                o.push(("n", s(t)));
            }
        }
        J::O(o)
    }
    /// Resolved description of a function value.
    fn fnref(&self, owner: LocalDefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("d", s(self.did(d))),
            ("p", s(tcx.def_path_str(d))),
            ("nm", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("ck", s(format!("{:?}", tcx.def_kind(d)))),
            ("ta", J::A(args.types().map(|t| self.ty(t)).collect())),
            ("ca", J::A(args.consts().map(|t| s(t)).collect())),
            ("local", J::B(d.is_local())),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.did(tr))));
            let env = ty::TypingEnv::post_analysis(tcx, owner);
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("rd", s(self.did(rd))));
                    o.push(("rlocal", J::B(rd.is_local())));
                }
            }
        } else if let Some(imp) = tcx.impl_of_assoc(d) {
            o.push(("im", self.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
        }
        J::O(o)
    }
}

struct Bx<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    th: &'a thir::Thir<'tcx>,
    owner: LocalDefId,
}

impl<'a, 'tcx> Bx<'a, 'tcx> {
    fn var(&self, v: thir::LocalVarId) -> J {
        J::S(format!("{}_{}", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32()))
    }
    fn field_name(&self, t: Ty<'tcx>, variant: usize, f: usize) -> J {
        match t.kind() {
            ty::Adt(a, _) => {
                let v = &a.variants()[rustc_abi::VariantIdx::from_usize(variant)];
                s(v.fields[rustc_abi::FieldIdx::from_usize(f)].name)
            }
            _ => s(f),
        }
    }
    fn pat(&self, p: &thir::Pat<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        match &p.kind {
            PatKind::Wild | PatKind::Missing => o.push(("k", s("wild"))),
            PatKind::Binding { name, mode, var, subpattern, ty, .. } => {
                o.push(("k", s("bind")));
                o.push(("n", s(name)));
                o.push(("v", self.var(*var)));
                o.push(("by", s(match mode.0 {
                    rustc_ast::ast::ByRef::No => "val",
                    rustc_ast::ast::ByRef::Yes(_, m) => if m.is_mut() { "mut" } else { "ref" },
                })));
                o.push(("t", self.cx.ty(*ty)));
                if let Some(sp) = subpattern {
                    o.push(("sub", self.pat(sp)));
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                o.push(("k", s("variant")));
                o.push(("d", s(self.cx.did(adt_def.did()))));
                o.push(("vn", s(adt_def.variants()[*variant_index].name)));
                o.push(("fs", J::A(subpatterns.iter().map(|f| {
                    J::A(vec![self.field_name(p.ty, variant_index.as_usize(), f.field.as_usize()), self.pat(&f.pattern)])
                }).collect())));
            }
            PatKind::Leaf { subpatterns } => {
                o.push(("k", s("leaf")));
                o.push(("fs", J::A(subpatterns.iter().map(|f| {
                    J::A(vec![self.field_name(p.ty, 0, f.field.as_usize()), self.pat(&f.pattern)])
                }).collect())));
            }
            PatKind::Deref { subpattern, .. } => {
                o.push(("k", s("deref")));
                o.push(("sub", self.pat(subpattern)));
            }
            PatKind::Constant { value } => {
                o.push(("k", s("const")));
                o.push(("v", self.cval(*value)));
            }
            PatKind::Or { pats } => {
                o.push(("k", s("or")));
                o.push(("ps", J::A(pats.iter().map(|p| self.pat(p)).collect())));
            }
            PatKind::Range(r) => {
                o.push(("k", s("range")));
                o.push(("n", s(format!("{:?}", r))));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                o.push(("k", s("slice")));
                o.push(("pre", J::A(prefix.iter().map(|p| self.pat(p)).collect())));
                o.push(("mid", match slice { Some(p) => self.pat(p), None => J::Null }));
                o.push(("suf", J::A(suffix.iter().map(|p| self.pat(p)).collect())));
            }
            other => {
                o.push(("k", s("other")));
                o.push(("n", s(format!("{:?}", std::mem::discriminant(other)))));
            }
        }
        J::O(o)
    }
    fn cval(&self, v: ty::Value<'tcx>) -> J {
        if let Some(leaf) = v.try_to_leaf() {
            let bits = leaf.to_bits_unchecked();
            return match v.ty.kind() {
                ty::Bool => J::B(bits != 0),
                ty::Char => s(char::from_u32(bits as u32).unwrap_or('?')),
                _ => J::O(vec![("int", s(bits))]),
            };
        }
        let t = v.ty.peel_refs();
        if t.is_str() {
            if let Some(bytes) = v.try_to_raw_bytes(self.cx.tcx) {
                return s(String::from_utf8_lossy(bytes));
            }
        }
        J::O(vec![("raw", s(format!("{:?}", v)))])
    }
    fn lit(&self, l: &LitKind, neg: bool) -> J {
        let mut o: Vec<(&'static str, J)> = vec![("k", s("lit"))];
        match l {
            LitKind::Str(sy, _) => {
                o.push(("lk", s("str")));
                let x = sy.as_str();
                if x.len() > 4096 {
                    let mut h: u64 = 0xcbf29ce484222325;
                    for b in x.bytes() {
                        h ^= b as u64;
                        h = h.wrapping_mul(0x100000001b3);
                    }
                    let name = format!("{:016x}.str", h);
                    let dir = std::env::var("THIR_OUT_DIR").unwrap();
                    std::fs::write(format!("{}/{}", dir, name), x).unwrap();
                    o.push(("file", s(name)));
                } else {
                    o.push(("v", s(x)));
                }
            }
            LitKind::ByteStr(b, _) => {
                o.push(("lk", s("bytes")));
                o.push(("v", J::A(b.as_byte_str().iter().map(|x| n(*x as usize)).collect())));
            }
            LitKind::Byte(b) => {
                o.push(("lk", s("int")));
                o.push(("v", s(*b as u64)));
            }
            LitKind::Char(c) => {
                o.push(("lk", s("char")));
                o.push(("v", s(c)));
            }
            LitKind::Int(i, _) => {
                o.push(("lk", s("int")));
                o.push(("v", s(format!("{}{}", if neg { "-" } else { "" }, i.get()))));
            }
            LitKind::Bool(b) => {
                o.push(("lk", s("bool")));
                o.push(("v", J::B(*b)));
            }
            _ => o.push(("lk", s("other"))),
        }
        J::O(o)
    }
    fn block(&self, b: thir::BlockId) -> J {
        let b = &self.th.blocks[b];
        let mut st = vec![];
        for id in b.stmts.iter() {
            match &self.th.stmts[*id].kind {
                StmtKind::Expr { expr, .. } => st.push(J::O(vec![("k", s("expr")), ("e", self.expr(*expr))])),
                StmtKind::Let { pattern, initializer, else_block, .. } => st.push(J::O(vec![
                    ("k", s("let")),
                    ("pat", self.pat(pattern)),
                    ("init", match initializer { Some(e) => self.expr(*e), None => J::Null }),
                    ("els", match else_block { Some(e) => self.block(*e), None => J::Null }),
                ])),
            }
        }
        J::O(vec![
            ("k", s("block")),
            ("st", J::A(st)),
            ("e", match b.expr { Some(e) => self.expr(e), None => J::Null }),
            ("tb", J::B(b.targeted_by_break)),
            ("rs", s(format!("{:?}", b.region_scope.local_id.as_u32()))),
        ])
    }
    fn expr(&self, id: thir::ExprId) -> J {
        let e = &self.th.exprs[id];
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! p { ($k:literal, $v:expr) => { o.push(($k, $v)) } }
        match &e.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                // scopes that can be break targets are kept on loops/blocks only
                let mut inner = self.expr(*value);
                if let J::O(v) = &mut inner {
                    v.push(("scope", s(format!("{:?}", region_scope.local_id.as_u32()))));
                }
                return inner;
            }
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source }
            | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => return self.expr(*source),
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::PointerCoercion { source, cast, .. } => {
                p!("k", s("coerce"));
                p!("how", s(format!("{:?}", cast)));
                p!("a", self.expr(*source));
            }
            ExprKind::Reborrow { source, .. } => return self.expr(*source),
            ExprKind::If { cond, then, else_opt, .. } => {
                p!("k", s("if"));
                p!("c", self.expr(*cond));
                p!("th", self.expr(*then));
                p!("el", match else_opt { Some(e) => self.expr(*e), None => J::Null });
            }
            ExprKind::Call { ty, fun, args, from_hir_call, .. } => {
                p!("k", s("call"));
                match ty.kind() {
                    ty::FnDef(d, ga) => {
                        p!("f", self.cx.fnref(self.owner, *d, ga.no_bound_vars().unwrap()));
                    }
                    _ => p!("fe", self.expr(*fun)),
                }
                p!("hir", J::B(*from_hir_call));
                p!("args", J::A(args.iter().map(|a| self.expr(*a)).collect()));
            }
            ExprKind::Deref { arg } => {
                p!("k", s("deref"));
                p!("a", self.expr(*arg));
            }
            ExprKind::Binary { op, lhs, rhs } => {
                p!("k", s("bin"));
                p!("op", s(format!("{:?}", op)));
                p!("l", self.expr(*lhs));
                p!("r", self.expr(*rhs));
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                p!("k", s("logic"));
                p!("op", s(format!("{:?}", op)));
                p!("l", self.expr(*lhs));
                p!("r", self.expr(*rhs));
            }
            ExprKind::Unary { op, arg } => {
                p!("k", s("un"));
                p!("op", s(format!("{:?}", op)));
                p!("a", self.expr(*arg));
            }
            ExprKind::Cast { source } => {
                p!("k", s("cast"));
                p!("a", self.expr(*source));
            }
            ExprKind::Loop { body } => {
                p!("k", s("loop"));
                p!("b", self.expr(*body));
            }
            ExprKind::Let { expr, pat } => {
                p!("k", s("let"));
                p!("e", self.expr(*expr));
                p!("pat", self.pat(pat));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                p!("k", s("match"));
                p!("src", s(format!("{:?}", match_source).split('(').next().unwrap().to_string()));
                p!("e", self.expr(*scrutinee));
                p!("arms", J::A(arms.iter().map(|a| {
                    let a = &self.th.arms[*a];
                    J::O(vec![
                        ("pat", self.pat(&a.pattern)),
                        ("guard", match a.guard { Some(g) => self.expr(g), None => J::Null }),
                        ("b", self.expr(a.body)),
                    ])
                }).collect()));
            }
            ExprKind::Block { block } => {
                let mut b = self.block(*block);
                if let J::O(v) = &mut b {
                    v.push(("t", self.cx.ty(e.ty)));
                    v.push(("sp", self.cx.span(e.span)));
                }
                return b;
            }
            ExprKind::Assign { lhs, rhs } => {
                p!("k", s("assign"));
                p!("l", self.expr(*lhs));
                p!("r", self.expr(*rhs));
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                p!("k", s("assignop"));
                p!("op", s(format!("{:?}", op)));
                p!("l", self.expr(*lhs));
                p!("r", self.expr(*rhs));
            }
            ExprKind::Field { lhs, variant_index, name } => {
                p!("k", s("field"));
                p!("n", self.field_name(self.th.exprs[*lhs].ty, variant_index.as_usize(), name.as_usize()));
                p!("a", self.expr(*lhs));
            }
            ExprKind::Index { lhs, index } => {
                p!("k", s("index"));
                p!("a", self.expr(*lhs));
                p!("i", self.expr(*index));
            }
            ExprKind::VarRef { id } => {
                p!("k", s("var"));
                p!("v", self.var(*id));
                p!("n", s(self.cx.tcx.hir_name(id.0)));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                p!("k", s("upvar"));
                p!("v", self.var(*var_hir_id));
                p!("n", s(self.cx.tcx.hir_name(var_hir_id.0)));
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                p!("k", s("borrow"));
                p!("m", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. })));
                p!("a", self.expr(*arg));
            }
            ExprKind::RawBorrow { arg, .. } => {
                p!("k", s("rawborrow"));
                p!("a", self.expr(*arg));
            }
            ExprKind::Break { label, value } => {
                p!("k", s("break"));
                p!("l", s(format!("{:?}", label.local_id.as_u32())));
                p!("e", match value { Some(e) => self.expr(*e), None => J::Null });
            }
            ExprKind::Continue { label } => {
                p!("k", s("continue"));
                p!("l", s(format!("{:?}", label.local_id.as_u32())));
            }
            ExprKind::Return { value } => {
                p!("k", s("return"));
                p!("e", match value { Some(e) => self.expr(*e), None => J::Null });
            }
            ExprKind::Repeat { value, count } => {
                p!("k", s("repeat"));
                p!("e", self.expr(*value));
                p!("c", s(count));
            }
            ExprKind::Array { fields } => {
                p!("k", s("array"));
                p!("es", J::A(fields.iter().map(|a| self.expr(*a)).collect()));
            }
            ExprKind::Tuple { fields } => {
                p!("k", s("tuple"));
                p!("es", J::A(fields.iter().map(|a| self.expr(*a)).collect()));
            }
            ExprKind::Adt(a) => {
                p!("k", s("adt"));
                p!("d", s(self.cx.did(a.adt_def.did())));
                let v = &a.adt_def.variants()[a.variant_index];
                p!("vn", s(v.name));
                p!("enum", J::B(a.adt_def.is_enum()));
                p!("fs", J::A(a.fields.iter().map(|f| J::A(vec![s(v.fields[f.name].name), self.expr(f.expr)])).collect()));
                p!("base", match &a.base { thir::AdtExprBase::Base(b) => self.expr(b.base), _ => J::Null });
            }
            ExprKind::Closure(c) => {
                p!("k", s("closure"));
                p!("d", s(self.cx.did(c.closure_id.to_def_id())));
                p!("ups", J::A(c.upvars.iter().map(|a| self.expr(*a)).collect()));
            }
            ExprKind::Literal { lit, neg } => {
                let mut l = self.lit(&lit.node, *neg);
                if let J::O(v) = &mut l {
                    v.push(("t", self.cx.ty(e.ty)));
                    v.push(("sp", self.cx.span(e.span)));
                }
                return l;
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                p!("k", s("lit"));
                p!("lk", s("int"));
                p!("v", s(lit.to_bits_unchecked()));
            }
            ExprKind::ZstLiteral { .. } => {
                p!("k", s("zst"));
                if let ty::FnDef(d, ga) = e.ty.kind() {
                    p!("f", self.cx.fnref(self.owner, *d, ga.no_bound_vars().unwrap()));
                }
            }
            ExprKind::NamedConst { def_id, .. } => {
                p!("k", s("const"));
                p!("d", s(self.cx.did(*def_id)));
                p!("local", J::B(def_id.is_local()));
            }
            ExprKind::ConstParam { param, .. } => {
                p!("k", s("cparam"));
                p!("n", s(param.name));
            }
            other => {
                p!("k", s("other"));
                let d = format!("{:?}", other);
                p!("n", s(d.chars().take(40).collect::<String>()));
            }
        }
        p!("t", self.cx.ty(e.ty));
        p!("sp", self.cx.span(e.span));
        J::O(o)
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let dir = match std::env::var("THIR_OUT_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let want = std::env::var("THIR_CRATE").unwrap_or_default();
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let cx = Cx { tcx };
        let mut fns = vec![];
        for d in tcx.hir_body_owners() {
            let kind = tcx.def_kind(d);
            let (th, root) = match tcx.thir_body(d) {
                Ok(x) => x,
                Err(_) => {
                    eprintln!("thir-extract: body of {:?} has errors", d);
                    std::process::exit(101);
                }
            };
            let th = th.borrow();
            let bx = Bx { cx: &cx, th: &th, owner: d };
            let did = d.to_def_id();
            let mut o: Vec<(&'static str, J)> = vec![
                ("id", s(cx.did(did))),
                ("path", s(tcx.def_path_str(did))),
                ("kind", s(format!("{:?}", kind))),
                ("span", cx.span(tcx.def_span(did))),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("name", s(tcx.item_name(did))));
                o.push(("vis", J::B(tcx.effective_visibilities(()).is_reachable(d))));
                o.push(("pub", J::B(tcx.visibility(did).is_public())));
                if let Some(imp) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    o.push(("self_ty", cx.ty(st)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.did(tr.def_id))));
                        o.push(("trait_args", J::A(tr.args.types().skip(1).map(|t| cx.ty(t)).collect())));
                    }
                    o.push(("impl", s(cx.did(imp))));
                    o.push(("derived", J::B(tcx.is_automatically_derived(imp))));
                } else if let Some(tr) = tcx.trait_of_assoc(did) {
                    o.push(("in_trait", s(cx.did(tr))));
                }
            }
            let (mut gt, mut gc) = (vec![], vec![]);
            for ga in ty::GenericArgs::identity_for_item(tcx, did).iter() {
                if let Some(t) = ga.as_type() {
                    if let ty::Param(p) = t.kind() {
                        gt.push(s(p.name));
                    }
                } else if let Some(c) = ga.as_const() {
                    if let ty::ConstKind::Param(p) = c.kind() {
                        gc.push(s(p.name));
                    }
                }
            }
            o.push(("gt", J::A(gt)));
            o.push(("gc", J::A(gc)));
            if let thir::BodyTy::Fn(sig) = &th.body_type {
                o.push(("ret", cx.ty(sig.output())));
            }
            o.push(("params", J::A(th.params.iter().map(|p| {
                J::O(vec![
                    ("pat", match &p.pat { Some(p) => bx.pat(p), None => J::Null }),
                    ("t", cx.ty(p.ty)),
                    ("self", J::B(p.self_kind.is_some())),
                ])
            }).collect())));
            o.push(("body", bx.expr(root)));
            fns.push(J::O(o));
        }
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                let a = tcx.adt_def(id);
                adts.push(J::O(vec![
                    ("d", s(cx.did(id.to_def_id()))),
                    ("p", s(tcx.def_path_str(id.to_def_id()))),
                    ("enum", J::B(a.is_enum())),
                    ("vs", J::A(a.variants().iter().map(|v| J::O(vec![
                        ("n", s(v.name)),
                        ("fs", J::A(v.fields.iter().map(|f| J::A(vec![
                            s(f.name),
                            cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                            J::B(f.vis.is_public()),
                        ])).collect())),
                    ])).collect())),
                ]));
            }
        }
        let mut deps = vec![];
        for f in tcx.sess.source_map().files().iter() {
            if let rustc_span::FileName::Real(r) = &f.name {
                if let Some(p) = r.local_path() {
                    if f.cnum == rustc_hir::def_id::LOCAL_CRATE {
                        deps.push(s(p.to_string_lossy()));
                    }
                }
            }
        }
        let test = tcx.sess.opts.test;
        let top = J::O(vec![("crate", s(want)), ("test", J::B(test)), ("files", J::A(deps)), ("fns", J::A(fns)), ("adts", J::A(adts))]);
        let mut out = String::new();
        top.w(&mut out);
        std::fs::write(format!("{}/thir.json", dir), out).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    let _ = LocalDefId::to_def_id;
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
