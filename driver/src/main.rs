//! Dumps the type-checked program (MIR with resolved callees, evaluated constants, ADT layouts,
//! function signatures and attributes) of every workspace crate as JSON lines, for the Python
//! analyses in /verif/engine.  Used as RUSTC_WORKSPACE_WRAPPER; output goes to $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::io::Write as _;

// ---- tiny JSON -----------------------------------------------------------------------------
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: BTreeMap<String, J>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}"))))
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(&i) = self.tys.get(&t) {
            return J::N(i as i128);
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(self.tystr(t)))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("p", s(self.path(def.did()))));
                let mut v = vec![];
                for a in args.types() {
                    v.push(self.ty(a));
                }
                o.push(("a", J::A(v)));
                self.adt(*def);
            }
            ty::Ref(_, t2, m) => {
                o.push(("k", s(if m.is_mut() { "refmut" } else { "ref" })));
                let x = self.ty(*t2);
                o.push(("a", J::A(vec![x])));
            }
            ty::RawPtr(t2, m) => {
                o.push(("k", s(if m.is_mut() { "ptrmut" } else { "ptr" })));
                let x = self.ty(*t2);
                o.push(("a", J::A(vec![x])));
            }
            ty::Slice(t2) => {
                o.push(("k", s("slice")));
                let x = self.ty(*t2);
                o.push(("a", J::A(vec![x])));
            }
            ty::Array(t2, n) => {
                o.push(("k", s("array")));
                let x = self.ty(*t2);
                o.push(("a", J::A(vec![x])));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("n", J::N(n as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let mut v = vec![];
                for a in ts.iter() {
                    v.push(self.ty(a));
                }
                o.push(("a", J::A(v)));
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("p", s(self.path(*d))));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(self.path(*d))));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s("prim")))
            }
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[id] = J::O(o);
        J::N(id as i128)
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = self.path(def.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let mut vs = vec![];
        let tcx = self.tcx;
        if def.is_enum() {
            for (i, d) in def.discriminants(tcx) {
                let v = def.variant(i);
                vs.push(self.variant(v, Some(d.val as i128)));
            }
        } else {
            for v in def.variants() {
                vs.push(self.variant(v, None));
            }
        }
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let repr = format!("{:?}", def.repr().flags);
        let mut o = vec![
            ("adt", s(p.clone())),
            ("kind", s(kind)),
            ("repr", s(repr)),
            ("vars", J::A(vs)),
            ("local", J::B(def.did().is_local())),
        ];
        if def.did().is_local() {
            o.push(("span", s(self.span(tcx.def_span(def.did())))));
            // field offsets, size and alignment of non-generic structs
            if !def.is_enum() && tcx.generics_of(def.did()).count() == 0 {
                let t = tcx.type_of(def.did()).instantiate_identity().skip_norm_wip();
                if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                    o.push(("size", J::N(l.size.bytes() as i128)));
                    o.push(("align", J::N(l.align.abi.bytes() as i128)));
                    let mut offs = vec![];
                    for i in 0..l.fields.count() {
                        offs.push(J::N(l.fields.offset(i).bytes() as i128));
                    }
                    o.push(("offsets", J::A(offs)));
                }
            }
        }
        self.adts.insert(p, J::O(o));
    }
    fn variant(&mut self, v: &ty::VariantDef, d: Option<i128>) -> J {
        let mut fs = vec![];
        for f in v.fields.iter() {
            let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            let vis = match f.vis {
                ty::Visibility::Public => "pub".to_string(),
                ty::Visibility::Restricted(m) => self.path(m.to_def_id()),
            };
            fs.push(J::A(vec![s(f.name.as_str()), s(self.tystr(t)), s(vis)]));
        }
        J::A(vec![s(v.name.as_str()), d.map(J::N).unwrap_or(J::Null), J::A(fs)])
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => def.variants().iter().next().unwrap(),
                                None => def.non_enum_variant(),
                            };
                            v.fields[i].name.to_string()
                        }
                        _ => i.index().to_string(),
                    };
                    J::A(vec![s("f"), J::N(i.index() as i128), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::N(l.index() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    J::N(offset as i128),
                    J::N(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => format!("{}", vi.index()),
                    };
                    J::A(vec![s("d"), J::N(vi.index() as i128), s(name)])
                }
                _ => s("o"),
            };
            pt = pt.projection_ty(self.tcx, e);
            pr.push(j);
        }
        J::A(vec![J::N(p.local.index() as i128), J::A(pr)])
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("fn", s(self.path(d)))];
        let mut v = vec![];
        for a in args.types() {
            v.push(self.ty(a));
        }
        o.push(("ta", J::A(v)));
        let mut cs = vec![];
        for c in args.consts() {
            cs.push(s(format!("{c}")));
        }
        if !cs.is_empty() {
            o.push(("ca", J::A(cs)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.path(tr))));
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
            let rd = inst.def_id();
            if rd != d {
                o.push(("res", s(self.path(rd))));
                let mut v = vec![];
                for a in inst.args.types() {
                    v.push(self.ty(a));
                }
                o.push(("rta", J::A(v)));
            }
            let k = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                _ => "shim",
            };
            o.push(("ik", s(k)));
        }
        J::O(o)
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                let n: i128 = match t.kind() {
                    ty::Int(_) => i.to_int(i.size()),
                    _ => i.to_uint(i.size()) as i128,
                };
                let mut r = vec![("int", J::N(n))];
                if let ty::Float(f) = t.kind() {
                    let txt = match f.bit_width() {
                        64 => format!("{:?}", f64::from_bits(i.to_u64())),
                        32 => format!("{:?}", f32::from_bits(i.to_u32())),
                        _ => String::new(),
                    };
                    r.push(("flt", s(txt)));
                }
                r
            }
            ConstValue::ZeroSized => match t.kind() {
                ty::FnDef(d, a) => {
                    let a = a.skip_binder();
                    let f = self.fnref(*d, a, env);
                    vec![("fnref", f)]
                }
                ty::Closure(d, _) => vec![("closure", s(self.path(*d)))],
                _ => vec![("zst", J::B(true))],
            },
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    match (t.kind(), std::str::from_utf8(b)) {
                        (ty::Ref(_, t2, _), Ok(x)) if t2.is_str() => vec![("str", s(x))],
                        _ => vec![("bytes", J::A(b.iter().map(|x| J::N(*x as i128)).collect()))],
                    }
                } else {
                    vec![("unk", s("slice"))]
                }
            }
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                use rustc_middle::mir::interpret::GlobalAlloc;
                match tcx.global_alloc(p.provenance.alloc_id()) {
                    GlobalAlloc::Static(d) => vec![("static", s(self.path(d)))],
                    GlobalAlloc::Function { instance } => vec![("fnptr", s(self.path(instance.def_id())))],
                    GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        let mut r = vec![("ptrmem", J::B(true))];
                        if a.provenance().ptrs().is_empty() && a.len() <= 4096 {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            r.push(("bytes", J::A(b.iter().map(|x| J::N(*x as i128)).collect())));
                        }
                        r
                    }
                    _ => vec![("unk", s("ptr"))],
                }
            }
            ConstValue::Indirect { .. } => vec![("unk", s("indirect"))],
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o = vec![("ty", tj)];
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted", J::N(p.index() as i128)));
                    o.push(("of", s(self.path(u.def))));
                } else {
                    o.push(("name", s(self.path(u.def))));
                    let has_param = {
                        use rustc_middle::ty::TypeVisitableExt;
                        u.args.has_param()
                    };
                    if has_param {
                        let eargs = self.tcx.erase_and_anonymize_regions(u.args);
                        if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, u.def, eargs) {
                            o.push(("res", s(self.path(inst.def_id()))));
                        }
                        let mut v = vec![];
                        for a in u.args.types() {
                            v.push(self.ty(a));
                        }
                        o.push(("ta", J::A(v)));
                    } else {
                        let eargs = self.tcx.erase_and_anonymize_regions(u.args);
                        if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, u.def, eargs) {
                            o.push(("res", s(self.path(inst.def_id()))));
                        }
                        if let Ok(v) = c.const_.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                            o.extend(self.constval(v, t, env));
                        }
                    }
                }
            }
            Const::Val(v, _) => o.extend(self.constval(v, t, env)),
            Const::Ty(_, ct) => {
                o.push(("tyconst", s(format!("{ct}"))));
                if let Some(n) = ct.try_to_target_usize(self.tcx) {
                    o.push(("int", J::N(n as i128)));
                } else if let Ok(v) = c.const_.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                    o.extend(self.constval(v, t, env));
                }
            }
        }
        J::O(vec![("k", J::O(o))])
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, p))]),
            Operand::Constant(c) => self.constant(c, env),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", J::O(vec![("rtc", s(format!("{op:?}")))]))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(body, o, env)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| J::N(x as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.operand(body, o, env), n])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), self.place(body, p)])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("rawptr"), s(format!("{k:?}")), self.place(body, p)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let fj = self.ty(from);
                J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(body, o, env), self.ty(*t), fj])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let tj = self.ty(t);
                J::A(vec![
                    s("bin"),
                    s(format!("{b:?}")),
                    self.operand(body, &ops.0, env),
                    self.operand(body, &ops.1, env),
                    tj,
                ])
            }
            Rvalue::UnaryOp(u, o) => {
                let tj = self.ty(o.ty(&body.local_decls, self.tcx));
                J::A(vec![s("un"), s(format!("{u:?}")), self.operand(body, o, env), tj])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let tj = self.ty(t);
                J::A(vec![s("discr"), self.place(body, p), tj])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let v = def.variant(*vi);
                        let names = match active {
                            Some(f) => vec![s(v.fields[*f].name.as_str())],
                            None => v.fields.iter().map(|f| s(f.name.as_str())).collect(),
                        };
                        J::A(vec![s("adt"), s(self.path(*d)), s(v.name.as_str()), J::A(names), J::B(def.is_enum())])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.path(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                let os: Vec<J> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(body, p);
                J::A(vec![s("use"), J::O(vec![("c", pj)])])
            }
            Rvalue::Reborrow(_, m, p) => {
                let mm = m.is_mut();
                J::A(vec![s("use"), J::O(vec![("c", self.place(body, p))]), J::B(mm)])
            }
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vdi.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), vdi.name.to_string());
                }
            }
        }
        let mut upvars = vec![];
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vdi.value {
                if !p.projection.is_empty() {
                    let pj = self.place(body, &p);
                    upvars.push(J::A(vec![s(vdi.name.as_str()), pj]));
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&l.index()).map(|x| s(x.clone())).unwrap_or(J::Null);
            locals.push(J::A(vec![t, n]));
        }
        let mut bbs = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            if b.is_cleanup {
                bbs.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let a = self.place(body, p);
                        let bq = self.rvalue(body, r, env);
                        st.push(J::A(vec![a, bq, s(self.span(x.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let a = self.place(body, place);
                        let t = place.ty(&body.local_decls, self.tcx).ty;
                        let name = match t.kind() {
                            ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        st.push(J::A(vec![a, J::A(vec![s("setd"), s(name)]), s("")]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![J::Null, J::A(vec![s("intr"), s(format!("{i:?}"))]), s(self.span(x.source_info.span))]));
                    }
                    _ => {}
                }
            }
            let term = b.terminator();
            let sp = s(self.span(term.source_info.span));
            let n = |b: BasicBlock| J::N(b.index() as i128);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, self.tcx);
                    let tj = self.ty(t);
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(J::A(vec![J::N(val as i128), n(bb)]));
                    }
                    J::A(vec![s("sw"), self.operand(body, discr, env), J::A(v), n(targets.otherwise()), tj, sp])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let tj = self.ty(t);
                    J::A(vec![s("drop"), self.place(body, place), n(*target), tj, sp])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, a) => {
                                let a = a.skip_binder();
                                self.fnref(*d, a, env)
                            }
                            _ => J::O(vec![("op", self.operand(body, func, env))]),
                        },
                        _ => J::O(vec![("op", self.operand(body, func, env))]),
                    };
                    let av: Vec<J> = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                    let d = self.place(body, destination);
                    let sp = s(self.span(*fn_span));
                    J::A(vec![s("call"), f, J::A(av), d, target.map(n).unwrap_or(J::Null), sp])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", std::mem::discriminant(&**msg));
                    let _ = m;
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    J::A(vec![s("assert"), self.operand(body, cond, env), J::B(*expected), n(*target), s(kind), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(*real_target)]),
                k => J::A(vec![s("other"), s(format!("{k:?}")), sp]),
            };
            bbs.push(J::O(vec![("s", J::A(st)), ("t", t)]));
        }
        vec![
            ("argc", J::N(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("upvars", J::A(upvars)),
            ("bbs", J::A(bbs)),
        ]
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut d = D { tcx, tys: HashMap::new(), ty_out: vec![], adts: BTreeMap::new() };
    let mut lines: Vec<J> = vec![];
    let owners: Vec<_> = tcx.hir_body_owners().collect();
    for ld in owners {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let env = TypingEnv::post_analysis(tcx, did);
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(d.path(did))),
            ("kind", s(format!("{kind:?}"))),
            ("span", s(d.span(tcx.def_span(did)))),
        ];
        let (body, promoted) = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if kind != DefKind::Closure {
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_binder();
                    let ins: Vec<J> = sig.inputs().iter().map(|t| d.ty(*t)).collect();
                    let outt = d.ty(sig.output());
                    o.push(("sig", J::A(vec![J::A(ins), outt])));
                    o.push(("abi", s(format!("{:?}", sig.abi()))));
                    o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                    o.push(("vis", s(match tcx.visibility(did) {
                        ty::Visibility::Public => "pub".to_string(),
                        ty::Visibility::Restricted(m) => d.path(m.to_def_id()),
                    })));
                    let at = tcx.codegen_fn_attrs(did);
                    if let Some(n) = at.symbol_name {
                        o.push(("symbol", s(n.as_str())));
                    }
                    o.push(("no_mangle", J::B(at.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE))));
                }
                if let Some(parent) = tcx.opt_parent(did) {
                    if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                        let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                        o.push(("self", d.ty(st)));
                        if of_trait {
                            let tr = tcx.impl_trait_ref(parent);
                            o.push(("trait", s(d.path(tr.skip_binder().def_id))));
                        }
                    } else if let DefKind::Trait = tcx.def_kind(parent) {
                        o.push(("intrait", s(d.path(parent))));
                    }
                }
                o.push(("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())));
                let gen: Vec<J> = ty::GenericArgs::identity_for_item(tcx, did).types().map(|t| s(d.tystr(t))).collect();
                o.push(("gen", J::A(gen)));
                if !tcx.is_mir_available(did) {
                    continue;
                }
                (tcx.optimized_mir(did), Some(tcx.promoted_mir(did)))
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                (tcx.mir_for_ctfe(did), Some(tcx.promoted_mir(did)))
            }
            _ => continue,
        };
        o.extend(d.body(body, env));
        if let Some(ps) = promoted {
            let mut v = vec![];
            for p in ps.iter() {
                v.push(J::O(d.body(p, env)));
            }
            if !v.is_empty() {
                o.push(("promoted", J::A(v)));
            }
        }
        lines.push(J::O(o));
    }
    // all local ADTs and foreign (extern block) functions
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => d.adt(tcx.adt_def(did)),
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(did);
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut methods = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    let t = it.trait_item_def_id().map(|x| d.path(x)).unwrap_or_default();
                    methods.push(J::A(vec![s(t), s(d.path(it.def_id))]));
                }
                let tj = d.ty(st);
                lines.push(J::O(vec![
                    ("impl", s(d.path(tr.skip_binder().def_id))),
                    ("for", tj),
                    ("derived", J::B(tcx.is_automatically_derived(did))),
                    ("items", J::A(methods)),
                ]));
            }
            DefKind::Fn if tcx.is_foreign_item(did) => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_binder();
                let ins: Vec<J> = sig.inputs().iter().map(|t| d.ty(*t)).collect();
                let outt = d.ty(sig.output());
                lines.push(J::O(vec![
                    ("foreign", s(d.path(did))),
                    ("name", s(tcx.item_name(did).as_str())),
                    ("sig", J::A(vec![J::A(ins), outt])),
                    ("span", s(d.span(tcx.def_span(did)))),
                ]));
            }
            _ => {}
        }
    }
    let ct = format!("{:?}", tcx.crate_types());
    let path = format!("{out}/{krate}.jsonl");
    let tmp = format!("{out}/{krate}.{}.tmp", std::process::id());
    let mut f = std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap());
    let mut buf = String::new();
    let mut put = |j: &J| {
        buf.clear();
        j.w(&mut buf);
        buf.push('\n');
        f.write_all(buf.as_bytes()).unwrap();
    };
    put(&J::O(vec![("crate", s(krate)), ("types", J::A(d.ty_out.clone())), ("ctypes", s(ct))]));
    for a in d.adts.values() {
        put(a);
    }
    for l in &lines {
        put(l);
    }
    f.flush().unwrap();
    drop(f);
    std::fs::rename(tmp, path).unwrap();
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    let query = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    let out = if is_build_script || query { None } else { std::env::var("MIRDUMP_OUT").ok() };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=no".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
}
