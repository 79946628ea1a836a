#![feature(rustc_private)]
//! A rustc driver that dumps the borrow-checker-phase MIR of a crate, with
//! resolved callees, as JSON facts.  It never runs the analysed code.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<J>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

/// crate-qualified definition path (stable across visible re-exports).
fn qpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = tcx.def_path(d);
    let mut s = tcx.crate_name(d.krate).to_string();
    s.push_str(&p.to_string_no_crate_verbose());
    s
}

fn loc(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> (String, usize, usize) {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    let hi = sm.lookup_char_pos(sp.hi());
    (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line, hi.line)
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tys.get(&t) {
            return J::N(*i as i128);
        }
        let tcx = self.tcx;
        let s = with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}")));
        let mut o = vec![("s", J::S(s))];
        match t.kind() {
            ty::Adt(a, args) => {
                o.push(("k", J::s("adt")));
                o.push(("adt", J::S(qpath(tcx, a.did()))));
                let v: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
            }
            ty::Ref(_, i, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*i);
                o.push(("args", J::A(vec![x])));
            }
            ty::RawPtr(i, _) => {
                o.push(("k", J::s("ptr")));
                let x = self.ty(*i);
                o.push(("args", J::A(vec![x])));
            }
            ty::Slice(i) | ty::Array(i, _) => {
                o.push(("k", J::s("slice")));
                let x = self.ty(*i);
                o.push(("args", J::A(vec![x])));
            }
            ty::Tuple(l) => {
                o.push(("k", J::s("tuple")));
                let v: Vec<J> = l.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("def", J::S(qpath(tcx, *d))));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(up)));
            }
            ty::FnDef(d, _) => {
                o.push(("k", J::s("fndef")));
                o.push(("def", J::S(qpath(tcx, *d))));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::S(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", J::s("int"))),
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            _ => o.push(("k", J::s("other"))),
        }
        let i = self.tyout.len();
        self.tyout.push(J::O(o));
        self.tys.insert(t, i);
        J::N(i as i128)
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", J::S(qpath(tcx, d))), ("p", J::S(path(tcx, d)))];
        o.push(("name", J::S(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())));
        // Which trait / self type it belongs to.
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(path(tcx, tr))));
            let st = args.types().next();
            if let Some(st) = st {
                let x = self.ty(st);
                o.push(("self", x));
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let x = self.ty(st);
            o.push(("self", x));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o.push(("trait", J::S(path(tcx, tr.skip_binder().def_id))));
            }
        }
        let v: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x)).collect();
        o.push(("targs", J::A(v)));
        // Resolution to the implementation, where the types decide it.
        if tcx.trait_of_assoc(d).is_some() {
            let args2 = tcx.erase_and_anonymize_regions(args);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(tcx, env, d, args2)
            }));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("res", J::S(qpath(tcx, rd))));
                    o.push(("resp", J::S(path(tcx, rd))));
                }
            }
        }
        J::O(o)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut pr = vec![];
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![J::s("*")]),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pt.variant_index {
                                Some(v) => a.variant(v),
                                None if a.is_enum() => a.variant(rustc_abi::VariantIdx::from_u32(0)),
                                None => a.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    let own = match pt.ty.kind() {
                        ty::Adt(a, _) => qpath(tcx, a.did()),
                        ty::Closure(..) => "closure".to_string(),
                        _ => "tuple".to_string(),
                    };
                    J::A(vec![J::s("."), J::S(name), J::S(own)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("[]"), J::N(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![J::s("[c]"), J::N(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("[s]"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    J::A(vec![J::s("as"), J::S(name)])
                }
                _ => J::A(vec![J::s("?")]),
            };
            pr.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        let t = self.ty(pt.ty);
        J::O(vec![("l", J::N(p.local.as_usize() as i128)), ("p", J::A(pr)), ("t", t)])
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *d));
            let cal = self.callee(env, *d, args);
            return J::O(vec![("fn", cal)]);
        }
        let tj = self.ty(t);
        o.push(("t", tj));
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::N(p.as_usize() as i128)));
                o.push(("of", J::S(qpath(tcx, u.def))));
                return J::O(vec![("c", J::O(o))]);
            }
            o.push(("item", J::S(path(tcx, u.def))));
            if let Some(n) = tcx.opt_item_name(u.def) {
                o.push(("name", J::S(n.to_string())));
            }
            let v: Vec<J> = u.args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x)).collect();
            o.push(("targs", J::A(v)));
        }
        let _ = owner;
        let is_int = matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char);
        if is_int {
            let c2 = c.const_;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                c2.try_eval_scalar_int(tcx, env)
            }));
            if let Ok(Some(s)) = r {
                let v: i128 = if t.is_signed() {
                    s.to_int(s.size())
                } else {
                    s.to_uint(s.size()) as i128
                };
                o.push(("v", J::S(format!("{}", if t.is_signed() { format!("{v}") } else { format!("{}", v as u128) }))));
            }
        }
        if !matches!(c.const_, Const::Unevaluated(..)) && !is_int {
            let s = with_no_trimmed_paths!(format!("{}", c.const_));
            if s.len() < 4000 {
                o.push(("s", J::S(s)));
            }
        }
        J::O(vec![("c", J::O(o))])
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, owner: DefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("cp", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(body, p))]),
            Operand::Constant(c) => self.konst(env, owner, c),
            _ => J::O(vec![("rt", J::B(true))]),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.operand(env, owner, body, o)]),
            Rvalue::Repeat(o, n) => {
                let n = format!("{n}");
                J::A(vec![J::s("repeat"), self.operand(env, owner, body, o), J::S(n)])
            }
            Rvalue::Ref(_, k, p) => {
                let kk = match k {
                    BorrowKind::Shared => "ref",
                    BorrowKind::Fake(_) => "fakeref",
                    BorrowKind::Mut { .. } => "mut",
                };
                J::A(vec![J::s("ref"), J::s(kk), self.place(body, p)])
            }
            Rvalue::RawPtr(k, p) => {
                // a pointer that is only read through is a shared reference
                let kk = if matches!(k, rustc_middle::mir::RawPtrKind::Mut) { "raw" } else { "ref" };
                J::A(vec![J::s("ref"), J::s(kk), self.place(body, p)])
            }
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                let oo = self.operand(env, owner, body, o);
                J::A(vec![J::s("cast"), J::S(format!("{k:?}").split(',').next().unwrap().to_string()), oo, t])
            }
            Rvalue::BinaryOp(b, ops) => {
                let x = self.operand(env, owner, body, &ops.0);
                let y = self.operand(env, owner, body, &ops.1);
                J::A(vec![J::s("bin"), J::S(format!("{b:?}")), x, y])
            }
            Rvalue::UnaryOp(b, o) => {
                J::A(vec![J::s("un"), J::S(format!("{b:?}")), self.operand(env, owner, body, o)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() {
                        for (vi, d) in a.discriminants(tcx) {
                            vs.push(J::A(vec![J::S(format!("{}", d.val)), J::S(a.variant(vi).name.to_string())]));
                        }
                    }
                }
                J::A(vec![J::s("discr"), self.place(body, p), J::A(vs)])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(env, owner, body, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, ..) => {
                        let a = tcx.adt_def(*d);
                        let var = a.variant(*vi);
                        let names: Vec<J> = var.fields.iter().map(|f| J::S(f.name.to_string())).collect();
                        J::A(vec![
                            J::s("adt"),
                            J::S(qpath(tcx, *d)),
                            J::S(var.name.to_string()),
                            J::A(names),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), J::S(qpath(tcx, *d))]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kk, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(body, p);
                J::A(vec![J::s("use"), J::O(vec![("cp", pl)])])
            }
            other => J::A(vec![J::s("other"), J::S(format!("{other:?}"))]),
        }
    }

    fn body(&mut self, owner: DefId, body: &Body<'tcx>, id: String, promoted: bool) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let (file, line, endl) = loc(tcx, body.span);
        let mut o = vec![
            ("id", J::S(id)),
            ("path", J::S(path(tcx, owner))),
            ("file", J::S(file)),
            ("line", J::N(line as i128)),
            ("end", J::N(endl as i128)),
            ("nargs", J::N(body.arg_count as i128)),
            ("promoted", J::B(promoted)),
            ("name", J::S(tcx.opt_item_name(owner).map(|n| n.to_string()).unwrap_or_default())),
        ];
        let kind = tcx.def_kind(owner);
        o.push(("kind", J::S(format!("{kind:?}"))));
        if let DefKind::Closure = kind {
            o.push(("parent", J::S(qpath(tcx, tcx.parent(owner)))));
            let ups: Vec<J> = body
                .var_debug_info
                .iter()
                .filter_map(|v| match &v.value {
                    VarDebugInfoContents::Place(p) if p.local.as_usize() == 1 && !p.projection.is_empty() => {
                        let f = p.projection.iter().find_map(|e| match e {
                            ProjectionElem::Field(f, _) => Some(f.as_usize()),
                            _ => None,
                        })?;
                        Some(J::A(vec![J::N(f as i128), J::S(v.name.to_string())]))
                    }
                    _ => None,
                })
                .collect();
            o.push(("upvars", J::A(ups)));
        } else {
            if let Some(im) = tcx.impl_of_assoc(owner) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let x = self.ty(st);
                o.push(("self", x));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    o.push(("trait", J::S(path(tcx, tr.skip_binder().def_id))));
                }
                let derived = tcx.is_automatically_derived(im);
                o.push(("derived", J::B(derived)));
            } else if let Some(tr) = tcx.trait_of_assoc(owner) {
                o.push(("trait_default", J::S(path(tcx, tr))));
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("pub", J::B(tcx.visibility(owner).is_public())));
            }
        }
        // names of user variables
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_usize()) {
                    Some(n) => J::A(vec![t, J::S(n.clone())]),
                    None => J::A(vec![t]),
                }
            })
            .collect();
        o.push(("locals", J::A(locals)));
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            if !data.is_cleanup {
                for s in &data.statements {
                    match &s.kind {
                        StatementKind::Assign(b) => {
                            let (p, r) = &**b;
                            let pj = self.place(body, p);
                            let rj = self.rvalue(env, owner, body, r);
                            let (_, ln, _) = loc(tcx, s.source_info.span);
                            ss.push(J::A(vec![pj, rj, J::N(ln as i128)]));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let pj = self.place(body, place);
                            ss.push(J::A(vec![
                                pj,
                                J::A(vec![J::s("setdiscr"), J::N(variant_index.as_usize() as i128)]),
                                J::N(0),
                            ]));
                        }
                        _ => {}
                    }
                }
            }
            let term = data.terminator();
            let (_, ln, _) = loc(tcx, term.source_info.span);
            let exp = {
                let mut v = vec![];
                for e in term.source_info.span.macro_backtrace() {
                    v.push(J::S(format!("{}", e.kind.descr())));
                }
                J::A(v)
            };
            let bbj = |b: BasicBlock| J::N(b.as_usize() as i128);
            let t = if data.is_cleanup {
                J::A(vec![J::s("cleanup")])
            } else {
                match &term.kind {
                    TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bbj(*target)]),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let oj = self.operand(env, owner, body, discr);
                        let dt = discr.ty(&body.local_decls, tcx);
                        let dt = self.ty(dt);
                        let v: Vec<J> = targets
                            .iter()
                            .map(|(v, b)| J::A(vec![J::S(format!("{v}")), bbj(b)]))
                            .collect();
                        J::A(vec![J::s("switch"), oj, J::A(v), bbj(targets.otherwise()), dt])
                    }
                    TerminatorKind::Return => J::A(vec![J::s("return")]),
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = self.operand(env, owner, body, func);
                        let a: Vec<J> =
                            args.iter().map(|x| self.operand(env, owner, body, &x.node)).collect();
                        let d = self.place(body, destination);
                        J::A(vec![
                            J::s("call"),
                            f,
                            J::A(a),
                            d,
                            target.map(bbj).unwrap_or(J::Null),
                            J::N(ln as i128),
                            exp,
                        ])
                    }
                    TerminatorKind::Drop { place, target, .. } => {
                        let p = self.place(body, place);
                        J::A(vec![J::s("drop"), p, bbj(*target)])
                    }
                    TerminatorKind::Assert { cond, expected, target, .. } => {
                        let c = self.operand(env, owner, body, cond);
                        J::A(vec![J::s("assert"), c, J::B(*expected), bbj(*target)])
                    }
                    TerminatorKind::FalseEdge { real_target, .. } => {
                        J::A(vec![J::s("goto"), bbj(*real_target)])
                    }
                    TerminatorKind::FalseUnwind { real_target, .. } => {
                        J::A(vec![J::s("goto"), bbj(*real_target)])
                    }
                    TerminatorKind::InlineAsm { targets, .. } => match targets.first() {
                        Some(t) => J::A(vec![J::s("asm"), bbj(*t)]),
                        None => J::A(vec![J::s("unreachable")]),
                    },
                    _ => J::A(vec![J::s("unreachable")]),
                }
            };
            blocks.push(J::O(vec![("s", J::A(ss)), ("t", t)]));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(dir) = std::env::var("MIRFACTS_OUT") else { return Compilation::Continue };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if krate.starts_with("build_script") {
            return Compilation::Continue;
        }
        let mut bodies: Vec<(DefId, Body<'tcx>, Vec<(usize, Body<'tcx>)>)> = vec![];
        let mut stolen = 0usize;
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let (b, p) = tcx.mir_promoted(ld);
            if b.is_stolen() {
                stolen += 1;
                let ob = tcx.optimized_mir(d).clone();
                let ps = tcx.promoted_mir(d).iter_enumerated().map(|(i, x)| (i.as_usize(), x.clone())).collect();
                bodies.push((d, ob, ps));
            } else {
                let bb = b.borrow().clone();
                let ps = p.borrow().iter_enumerated().map(|(i, x)| (i.as_usize(), x.clone())).collect();
                bodies.push((d, bb, ps));
            }
        }
        let mut cx = Cx { tcx, tys: HashMap::new(), tyout: vec![] };
        let mut out = vec![];
        for (d, b, ps) in &bodies {
            let id = qpath(tcx, *d);
            for (i, p) in ps {
                let j = cx.body(*d, p, format!("{id}#promoted{i}"), true);
                out.push(j);
            }
            let j = cx.body(*d, b, id, false);
            out.push(j);
        }
        // ADTs, with their fields
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let a = tcx.adt_def(d);
                let vs: Vec<J> = a
                    .variants()
                    .iter()
                    .map(|v| {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                let t = cx.ty(t);
                                let vis = f.vis.is_public();
                                J::A(vec![J::S(f.name.to_string()), t, J::B(vis)])
                            })
                            .collect();
                        J::O(vec![("name", J::S(v.name.to_string())), ("fields", J::A(fs))])
                    })
                    .collect();
                let (file, line, _) = loc(tcx, tcx.def_span(d));
                adts.push(J::O(vec![
                    ("id", J::S(qpath(tcx, d))),
                    ("file", J::S(file)),
                    ("line", J::N(line as i128)),
                    ("enum", J::B(a.is_enum())),
                    ("variants", J::A(vs)),
                ]));
            }
        }
        // impls
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { .. } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let sj = cx.ty(st);
                let mut o = vec![("self", sj), ("derived", J::B(tcx.is_automatically_derived(d)))];
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let tr = tr.skip_binder();
                    o.push(("trait", J::S(path(tcx, tr.def_id))));
                    o.push(("trs", J::S(with_no_trimmed_paths!(format!("{tr}")))));
                }
                let its: Vec<J> = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .map(|x| J::S(qpath(tcx, *x)))
                    .collect();
                o.push(("items", J::A(its)));
                let (file, line, _) = loc(tcx, tcx.def_span(d));
                o.push(("file", J::S(file)));
                o.push(("line", J::N(line as i128)));
                impls.push(J::O(o));
            }
        }
        // constant items: the compiler's value
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                continue;
            }
            let gen = tcx.generics_of(d).requires_monomorphization(tcx);
            let mut o = vec![("id", J::S(qpath(tcx, d)))];
            if let Some(n) = tcx.opt_item_name(d) {
                o.push(("name", J::S(n.to_string())));
            }
            let (file, line, _) = loc(tcx, tcx.def_span(d));
            o.push(("file", J::S(file)));
            o.push(("line", J::N(line as i128)));
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            if let Some(ai) = tcx.opt_associated_item(d) {
                let p = ai.container_id(tcx);
                if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    o.push(("self", J::S(with_no_visible_paths!(with_no_trimmed_paths!(format!("{st}"))))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                        o.push(("trait", J::S(path(tcx, tr.skip_binder().def_id))));
                    }
                } else {
                    continue;
                }
            }
            if !gen {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    tcx.const_eval_poly(d).ok().map(|v| {
                        (
                            with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}"))),
                            with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", Const::Val(v, t)))),
                        )
                    })
                }));
                if let Ok(Some((t, v))) = r {
                    o.push(("ty", J::S(t)));
                    o.push(("val", J::S(v)));
                }
            }
            consts.push(J::O(o));
        }
        let types = std::mem::take(&mut cx.tyout);
        let j = J::O(vec![
            ("consts", J::A(consts)),
            ("crate", J::S(krate.clone())),
            ("stolen", J::N(stolen as i128)),
            ("bodies", J::A(out)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("types", J::A(types)),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        let is_test = std::env::args().any(|a| a == "--test");
        let bin = std::env::args().collect::<Vec<_>>().windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
        let mut f = String::new();
        let _ = write!(f, "{dir}/{krate}{}{}.json", if is_test { ".test" } else { "" }, if bin { ".bin" } else { "" });
        let tmp = format!("{f}.tmp");
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, &f).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    std::panic::set_hook(Box::new(|_| {}));
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
