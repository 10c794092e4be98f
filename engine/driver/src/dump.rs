use crate::json::{J, s};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}
fn tystr(t: Ty<'_>) -> String {
    with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(t.to_string())))
}
fn span(tcx: TyCtxt<'_>, sp: Span) -> J {
    let sp2 = sp.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(sp2.lo());
    J::A(vec![
        s(format!("{}", l.file.name.prefer_local_unconditionally())),
        J::I(l.line as i128),
        J::B(sp.from_expansion()),
    ])
}
fn attrs(tcx: TyCtxt<'_>, d: LocalDefId) -> J {
    let hir = tcx.local_def_id_to_hir_id(d);
    J::A(tcx.hir_attrs(hir).iter().map(|a| s(rustc_hir_pretty::attribute_to_string(&(&tcx as &dyn rustc_hir::intravisit::HirTyCtxt<'_>), a))).collect())
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut t = rustc_middle::mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let mut projs = vec![];
        for e in p.projection.iter() {
            match e {
                PlaceElem::Deref => projs.push(s("*")),
                PlaceElem::Field(f, _) => {
                    let name = match t.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match t.variant_index {
                                Some(v) => a.variant(v),
                                None if a.is_enum() => a.variants().iter().next().unwrap(),
                                None => a.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    projs.push(J::A(vec![s("f"), J::I(f.as_usize() as i128), s(name)]));
                }
                PlaceElem::Downcast(n, v) => {
                    let name = match (n, t.ty.kind()) {
                        (_, ty::Adt(a, _)) => a.variant(v).name.to_string(),
                        (Some(n), _) => n.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    projs.push(J::A(vec![s("v"), J::I(v.as_usize() as i128), s(name)]));
                }
                PlaceElem::Index(l) => projs.push(J::A(vec![s("i"), J::I(l.as_usize() as i128)])),
                PlaceElem::ConstantIndex { offset, from_end, .. } => {
                    projs.push(J::A(vec![s("c"), J::I(offset as i128), J::B(from_end)]))
                }
                PlaceElem::Subslice { from, to, from_end } => {
                    projs.push(J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)]))
                }
                _ => projs.push(s("?")),
            }
            t = t.projection_ty(self.tcx, e);
        }
        if projs.is_empty() {
            J::I(p.local.as_usize() as i128)
        } else {
            let mut v = vec![J::I(p.local.as_usize() as i128)];
            v.append(&mut projs);
            J::A(v)
        }
    }
    fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("k", s("fn")), ("path", s(path(tcx, d)))];
        let ga: Vec<J> = args.iter().filter_map(|a| a.as_type().map(|t| s(tystr(t)))).collect();
        if !ga.is_empty() {
            o.push(("args", J::A(ga)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
        }
        o.push(("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())));
        o.push(("krate", s(tcx.crate_name(d.krate).to_string())));
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args) {
            let r = i.def_id();
            if r != d {
                o.push(("res", s(path(tcx, r))));
                o.push(("rkrate", s(tcx.crate_name(r.krate).to_string())));
            } else if tcx.trait_of_assoc(d).is_some() && !matches!(i.def, ty::InstanceKind::Virtual(..)) {
                o.push(("resdefault", J::B(true)));
            }
        }
        J::O(o)
    }
    fn konst(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, a) => return self.fndef(*d, a.skip_binder()),
            _ => {}
        }
        if let Const::Ty(_, ct) = c.const_ {
            if let Some(b) = ct.try_to_value().and_then(|v| v.try_to_raw_bytes(tcx)) {
                return match t.kind() {
                    ty::Ref(_, inner, _) if inner.is_str() => {
                        J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).to_string()))])
                    }
                    _ => J::O(vec![("k", s("bytes")), ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]),
                };
            }
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            let mut val = J::Null;
            if t.is_integral() || t.is_bool() || t.is_char() {
                if let Some(b) = c.const_.try_eval_scalar_int(tcx, self.env) {
                    let size = b.size();
                    val = J::I(if t.is_signed() { b.to_int(size) } else { b.to_uint(size) as i128 });
                }
            }
            return J::O(vec![
                ("k", s("const")),
                ("path", s(path(tcx, u.def))),
                ("val", val),
                ("ty", s(tystr(t))),
                ("of", match u.args.types().next() { Some(x) => s(tystr(x)), None => J::Null }),
                ("promoted", match u.promoted { Some(p) => J::I(p.as_usize() as i128), None => J::Null }),
            ]);
        }
        if let Const::Val(v, _) = c.const_ {
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).to_string()))]);
                    }
                }
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.const_.try_eval_scalar_int(tcx, self.env) {
                let size = b.size();
                let v = if t.is_signed() { b.to_int(size) } else { b.to_uint(size) as i128 };
                return J::O(vec![("k", s("int")), ("v", J::I(v)), ("ty", s(tystr(t)))]);
            }
        }
        let mut extra = String::new();
        if let Const::Val(v, _) = c.const_ {
            if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                use rustc_middle::mir::interpret::GlobalAlloc;
                match tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                    Some(GlobalAlloc::Static(d)) => {
                        return J::O(vec![("k", s("static")), ("path", s(path(tcx, d))), ("ty", s(tystr(t)))]);
                    }
                    Some(GlobalAlloc::Memory(m)) => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(e, _) = inner.kind() {
                                if *e == tcx.types.u8 {
                                    let a = m.inner();
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                    return J::O(vec![("k", s("bytes")), ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]);
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        extra.push_str(&with_no_trimmed_paths!(format!("{}", c.const_)));
        J::O(vec![("k", s("other")), ("ty", s(tystr(t))), ("v", s(extra))])
    }
    fn operand(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c)]),
            _ => J::A(vec![s("k"), J::O(vec![("k", s("other")), ("v", s("runtimecheck"))])]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                self.place(p),
                s(match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                }),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), self.place(p)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, tcx).ty;
                let mut o = vec![s("discr"), self.place(p)];
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() {
                        o.push(J::A(
                            a.discriminants(tcx)
                                .map(|(i, d)| J::A(vec![J::I(d.val as i128), s(a.variant(i).name.to_string())]))
                                .collect(),
                        ));
                        o.push(s(path(tcx, a.did())));
                    }
                }
                J::A(o)
            }
            Rvalue::BinaryOp(op, b) => {
                J::A(vec![s("bin"), s(format!("{op:?}")), self.operand(&b.0), self.operand(&b.1)])
            }
            Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(o)]),
            Rvalue::Cast(k, o, t) => {
                J::A(vec![s("cast"), s(format!("{k:?}").chars().take(40).collect::<String>()), self.operand(o), s(tystr(*t))])
            }
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.operand(o), s(n.to_string())]),
            Rvalue::Aggregate(k, ops) => {
                let opsj = J::A(ops.iter().map(|o| self.operand(o)).collect());
                match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("agg"), s("array"), J::Null, J::Null, opsj]),
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), J::Null, J::Null, opsj]),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        let a = tcx.adt_def(*d);
                        let var = a.variant(*v);
                        let names = match f {
                            Some(f) => vec![s(var.fields[*f].name.to_string())],
                            None => var.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        J::A(vec![
                            s("agg"),
                            s("adt"),
                            s(path(tcx, *d)),
                            if a.is_enum() { s(var.name.to_string()) } else { J::Null },
                            opsj,
                            J::A(names),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        let names = tcx
                            .closure_captures(d.expect_local())
                            .iter()
                            .map(|c| s(c.to_symbol().to_string()))
                            .collect();
                        J::A(vec![s("agg"), s("closure"), s(path(tcx, *d)), J::Null, opsj, J::A(names)])
                    }
                    AggregateKind::Coroutine(d, _) => {
                        let names = tcx
                            .closure_captures(d.expect_local())
                            .iter()
                            .map(|c| s(c.to_symbol().to_string()))
                            .collect();
                        J::A(vec![s("agg"), s("coroutine"), s(path(tcx, *d)), J::Null, opsj, J::A(names)])
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        J::A(vec![s("agg"), s("coroutineclosure"), s(path(tcx, *d)), J::Null, opsj])
                    }
                    _ => J::A(vec![s("agg"), s("other"), J::Null, J::Null, opsj]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }
    fn body_json(&self) -> J {
        let b = self.body;
        let tcx = self.tcx;
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let locals = J::A(
            b.local_decls
                .iter_enumerated()
                .map(|(l, d)| {
                    J::A(vec![
                        s(tystr(d.ty)),
                        match &names[l.as_usize()] {
                            Some(n) => s(n.clone()),
                            None => J::Null,
                        },
                    ])
                })
                .collect(),
        );
        let bb = |t: BasicBlock| J::I(t.as_usize() as i128);
        let blocks = J::A(
            b.basic_blocks
                .iter()
                .map(|blk| {
                    let mut st = vec![];
                    for x in &blk.statements {
                        match &x.kind {
                            StatementKind::Assign(a) => {
                                st.push(J::A(vec![self.place(&a.0), self.rvalue(&a.1), span(tcx, x.source_info.span)]))
                            }
                            StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![
                                s("setdiscr"),
                                self.place(place),
                                J::I(variant_index.as_usize() as i128),
                            ])),
                            _ => {}
                        }
                    }
                    let t = blk.terminator();
                    let sp = span(tcx, t.source_info.span);
                    let tj = match &t.kind {
                        TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
                        TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
                        TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
                        TerminatorKind::SwitchInt { discr, targets } => J::A(vec![
                            s("switch"),
                            self.operand(discr),
                            J::A(targets.iter().map(|(v, t)| J::A(vec![J::I(v as i128), bb(t)])).collect()),
                            bb(targets.otherwise()),
                            s(tystr(discr.ty(&b.local_decls, tcx))),
                            sp,
                        ]),
                        TerminatorKind::Return => J::A(vec![s("return")]),
                        TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                        TerminatorKind::CoroutineDrop => J::A(vec![s("resume")]),
                        TerminatorKind::Drop { place, target, .. } => {
                            J::A(vec![s("drop"), self.place(place), bb(*target), s(tystr(place.ty(&b.local_decls, tcx).ty)), sp])
                        }
                        TerminatorKind::Assert { cond, expected, msg, target, .. } => J::A(vec![
                            s("assert"),
                            self.operand(cond),
                            J::B(*expected),
                            bb(*target),
                            s(format!("{msg:?}")),
                            sp,
                        ]),
                        TerminatorKind::Call { func, args, destination, target, .. } => J::A(vec![
                            s("call"),
                            self.operand(func),
                            J::A(args.iter().map(|a| self.operand(&a.node)).collect()),
                            self.place(destination),
                            match target {
                                Some(t) => bb(*t),
                                None => J::Null,
                            },
                            sp,
                        ]),
                        TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                            J::A(vec![s("yield"), self.operand(value), bb(*resume), self.place(resume_arg)])
                        }
                        other => J::A(vec![s("other"), s(format!("{other:?}"))]),
                    };
                    J::A(vec![J::B(blk.is_cleanup), J::A(st), tj])
                })
                .collect(),
        );
        J::O(vec![("argc", J::I(b.arg_count as i128)), ("locals", locals), ("blocks", blocks)])
    }
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut fns = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut uses = vec![];
    // variants of enums defined elsewhere which local code holds values of
    let mut ext: std::collections::BTreeMap<String, Vec<J>> = Default::default();
    let bodies = crate::BODIES.lock().unwrap().take().map(|b| b.0).unwrap_or_default();
    let mut keys: Vec<LocalDefId> = bodies.keys().copied().collect();
    keys.sort_by_key(|k| k.local_def_index);
    for d in keys {
        let body: &Body<'_> = unsafe { std::mem::transmute(&bodies[&d]) };
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        for l in body.local_decls.iter() {
            for g in l.ty.walk() {
                if let Some(t) = g.as_type() {
                    if let ty::Adt(a, _) = t.kind() {
                        if a.is_enum() && !a.did().is_local() {
                            ext.entry(path(tcx, a.did()))
                                .or_insert_with(|| a.variants().iter().map(|v| s(v.name.to_string())).collect());
                        }
                    }
                }
            }
        }
        let cx = Cx { tcx, body, env: TypingEnv::post_analysis(tcx, did) };
        let mut o = vec![
            ("path", s(path(tcx, did))),
            ("kind", s(format!("{kind:?}").split('(').next().unwrap().split(' ').next().unwrap().to_string())),
            ("span", span(tcx, tcx.def_span(did))),
            ("tainted", J::B(body.tainted_by_errors.is_some())),
        ];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("attrs", attrs(tcx, d)));
            o.push(("pub", J::B(tcx.visibility(did).is_public())));
            o.push(("async", J::B(tcx.asyncness(did).is_async())));
            let gs = tcx.generics_of(did);
            let names: Vec<J> = (0..gs.count())
                .map(|i| gs.param_at(i, tcx))
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| s(p.name.to_string()))
                .collect();
            if !names.is_empty() {
                o.push(("gen", J::A(names)));
            }
            o.push(("ret", s(tystr(tcx.fn_sig(did).skip_binder().output().skip_binder()))));
            if let Some(i) = tcx.impl_of_assoc(did) {
                o.push(("impl", s(tystr(tcx.type_of(i).skip_binder()))));
                if let Some(t) = tcx.impl_opt_trait_ref(i) {
                    o.push(("trait", s(path(tcx, t.skip_binder().def_id))));
                }
            } else if let Some(t) = tcx.trait_of_assoc(did) {
                o.push(("intrait", s(path(tcx, t))));
            }
        }
        if matches!(kind, DefKind::Closure) {
            o.push(("parent", s(path(tcx, tcx.parent(did)))));
            o.push(("caps", J::A(tcx.closure_captures(d).iter().map(|c| s(c.to_symbol().to_string())).collect())));
        }
        o.push(("body", cx.body_json()));
        fns.push(J::O(o));
    }
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(did);
                let variants = a
                    .variants()
                    .iter()
                    .map(|v| {
                        let va = if a.is_enum() { attrs(tcx, v.def_id.expect_local()) } else { J::A(vec![]) };
                        J::O(vec![
                            ("name", s(v.name.to_string())),
                            ("attrs", va),
                            (
                                "fields",
                                J::A(
                                    v.fields
                                        .iter()
                                        .map(|f| {
                                            J::O(vec![
                                                ("name", s(f.name.to_string())),
                                                ("ty", s(tystr(tcx.type_of(f.did).skip_binder()))),
                                                ("attrs", attrs(tcx, f.did.expect_local())),
                                                ("pub", J::B(f.vis.is_public())),
                                            ])
                                        })
                                        .collect(),
                                ),
                            ),
                        ])
                    })
                    .collect();
                adts.push(J::O(vec![
                    ("path", s(path(tcx, did))),
                    ("kind", s(if a.is_enum() { "enum" } else { "struct" })),
                    ("attrs", attrs(tcx, id)),
                    ("span", span(tcx, tcx.def_span(did))),
                    ("variants", J::A(variants)),
                ]));
            }
            DefKind::Impl { .. } => {
                let t = tcx.impl_opt_trait_ref(did);
                let items = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|i| {
                        let mut v = vec![s(i.opt_name().map(|n| n.to_string()).unwrap_or_default()), s(path(tcx, i.def_id))];
                        if i.is_type() {
                            v.push(s(tystr(tcx.type_of(i.def_id).skip_binder())));
                        }
                        J::A(v)
                    })
                    .collect();
                impls.push(J::O(vec![
                    ("self", s(tystr(tcx.type_of(did).skip_binder()))),
                    ("trait", t.map(|t| s(path(tcx, t.skip_binder().def_id))).unwrap_or(J::Null)),
                    (
                        "traitref",
                        t.map(|t| s(with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(t.skip_binder().to_string())))))
                            .unwrap_or(J::Null),
                    ),
                    ("items", J::A(items)),
                    ("attrs", attrs(tcx, id)),
                    ("span", span(tcx, tcx.def_span(did))),
                ]));
            }
            DefKind::Trait => {
                let items = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|i| {
                        J::A(vec![
                            s(i.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                            s(path(tcx, i.def_id)),
                            J::B(i.defaultness(tcx).has_value()),
                        ])
                    })
                    .collect();
                traits.push(J::O(vec![("path", s(path(tcx, did))), ("items", J::A(items))]));
            }
            _ => {}
        }
    }
    let _ = &mut uses;
    let _: &Vec<J> = &uses;
    let sm = tcx.sess.source_map();
    let files = J::A(
        sm.files()
            .iter()
            .filter(|f| f.cnum == rustc_hir::def_id::LOCAL_CRATE)
            .map(|f| s(format!("{}", f.name.prefer_local_unconditionally())))
            .collect(),
    );
    let j = J::O(vec![
        ("extenums", J::A(ext.into_iter().map(|(k, v)| J::A(vec![s(k), J::A(v)])).collect())),
        ("crate", s(krate)),
        ("files", files),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
    ]);
    let mut o = String::new();
    j.write(&mut o);
    let tmp = format!("{out}.tmp");
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}
