//! MIR fact extractor for the static checks of /verif.
//!
//! Invoked by cargo as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, the rest its arguments.
//! For the crates named in FC_CRATES it writes <FC_OUT>/<crate>.json and otherwise behaves as rustc.
#![feature(rustc_private, exitcode_exit_method)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
mod mono;

use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::{ExpnKind, Span};

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let want = std::env::var("FC_CRATES").unwrap_or_default();
        if want.split(',').any(|c| c == krate) {
            let out = std::env::var("FC_OUT").expect("FC_OUT");
            let j = with_no_trimmed_paths!(dump(tcx));
            let path = format!("{}/{}.json", out, krate);
            std::fs::write(&path, j.to_string()).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // argv[0] of the rustc invocation
    if args.is_empty() {
        eprintln!("usage: fc-driver rustc ARGS");
        std::process::exit(2);
    }
    let is_build_script = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "build_script_build");
    if !is_build_script {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=no".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=on".into());
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    let _ = &code;
    // catch_with_exit_code returns ExitCode
    exit(code)
}

fn exit(code: std::process::ExitCode) -> ! {
    code.exit_process()
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.def_path_str(d)
}

/// A path that is stable and unique: includes impl disambiguation through def_path_debug_str.
pub fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.def_path_debug_str(d)
}

fn span_json(tcx: TyCtxt<'_>, sp: Span) -> Vec<(&'static str, J)> {
    let mut macros = vec![];
    let mut s = sp;
    while s.from_expansion() {
        let data = s.ctxt().outer_expn_data();
        match data.kind {
            ExpnKind::Macro(_, name) => {
                let krate = data
                    .macro_def_id
                    .map(|d| tcx.crate_name(d.krate).to_string())
                    .unwrap_or_default();
                macros.push(J::S(format!("{}::{}", krate, name)));
            }
            ExpnKind::Desugaring(k) => macros.push(J::S(format!("desugar::{}", k.descr()))),
            ExpnKind::AstPass(_) => macros.push(J::S("astpass".into())),
            ExpnKind::Root => {}
        }
        s = data.call_site;
    }
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(s.lo());
    let file = format!("{}", lo.file.name.prefer_local_unconditionally());
    let mut v = vec![
        ("file", J::S(file)),
        ("line", J::I(lo.line as i128)),
        ("col", J::I(lo.col.0 as i128)),
    ];
    if !macros.is_empty() {
        v.push(("mac", J::A(macros)));
    }
    v
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut bodies = vec![];
    for ldid in tcx.hir_body_owners() {
        let did = ldid.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let body = tcx.optimized_mir(did);
                bodies.push(dump_body(tcx, ldid, kind, body));
            }
            _ => {}
        }
    }
    let mut adts = vec![];
    let mut impls = vec![];
    let mut statics = vec![];
    let mut items = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(dump_adt(tcx, did)),
            DefKind::Impl { .. } => impls.push(dump_impl(tcx, did)),
            DefKind::Static { mutability, .. } => {
                let mut v = vec![
                    ("path", J::S(path(tcx, did))),
                    ("ty", J::S(tcx.type_of(did).instantiate_identity().skip_norm_wip().to_string())),
                    ("mut", J::B(mutability.is_mut())),
                    ("freeze", J::B(tcx
                        .type_of(did)
                        .instantiate_identity()
                        .skip_norm_wip()
                        .is_freeze(tcx, TypingEnv::fully_monomorphized()))),
                    ("value", static_value(tcx, did)),
                ];
                v.extend(span_json(tcx, tcx.def_span(did)));
                statics.push(J::O(v));
            }
            _ => {}
        }
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Struct | DefKind::Enum | DefKind::Trait
            | DefKind::TyAlias | DefKind::Mod | DefKind::Static { .. } | DefKind::Const { .. } => {
                if tcx.visibility(did).is_public() {
                    items.push(J::O(vec![
                        ("path", J::S(path(tcx, did))),
                        ("kind", J::S(format!("{:?}", tcx.def_kind(did)))),
                        ("reach", J::B(tcx.effective_visibilities(()).is_reachable(id))),
                        ("sig", J::S(signature(tcx, did))),
                    ]));
                }
            }
            _ => {}
        }
    }
    J::O(vec![
        ("crate", J::S(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
        ("bodies", J::A(bodies)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("statics", J::A(statics)),
        ("items", J::A(items)),
        ("unsafe", J::A(unsafe_sites(tcx))),
        ("exports", J::A(exports(tcx))),
        ("mono", mono::dump(tcx)),
    ])
}

/// public shape of an item
fn signature(tcx: TyCtxt<'_>, did: DefId) -> String {
    match tcx.def_kind(did) {
        DefKind::Fn | DefKind::AssocFn => {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let preds = tcx.clauses_of(did);
            let mut ps: Vec<String> = preds.clauses.iter().map(|(p, _)| p.to_string()).collect();
            ps.sort();
            format!("{} where {}", sig, ps.join(", "))
        }
        DefKind::Static { .. } | DefKind::Const { .. } | DefKind::TyAlias => {
            tcx.type_of(did).instantiate_identity().skip_norm_wip().to_string()
        }
        _ => String::new(),
    }
}

fn exports(tcx: TyCtxt<'_>) -> Vec<J> {
    let mut out = vec![];
    let mut mods = vec![rustc_span::def_id::CRATE_DEF_ID];
    for id in tcx.hir_crate_items(()).definitions() {
        if tcx.def_kind(id.to_def_id()) == DefKind::Mod {
            mods.push(id);
        }
    }
    for m in mods {
        for c in tcx.module_children_local(m) {
            out.push(J::O(vec![
                ("mod", J::S(path(tcx, m.to_def_id()))),
                ("name", J::S(c.ident.to_string())),
                ("res", J::S(format!("{:?}", c.res.opt_def_id().map(|d| path(tcx, d))))),
                ("pub", J::B(c.vis.is_public())),
            ]));
        }
    }
    out
}

struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<J>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.allows_unsafe() {
                let mut v = vec![("what", J::S("unsafe block".into()))];
                v.extend(span_json(self.tcx, b.span));
                self.out.push(J::O(v));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn unsafe_sites(tcx: TyCtxt<'_>) -> Vec<J> {
    let mut vis = UnsafeVisitor { tcx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut vis);
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        let what = match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn if tcx.fn_sig(did).skip_binder().safety().is_unsafe() => "unsafe fn",
            DefKind::ForeignMod => "extern block",
            DefKind::Impl { of_trait: true } if tcx.impl_trait_header(did).safety.is_unsafe() && !derived(tcx, did) => "unsafe impl",
            _ => continue,
        };
        let mut v = vec![("what", J::S(what.into()))];
        v.extend(span_json(tcx, tcx.def_span(did)));
        vis.out.push(J::O(v));
    }
    vis.out
}

fn static_value(tcx: TyCtxt<'_>, did: DefId) -> J {
    // &'static str statics only
    if let Ok(alloc) = tcx.eval_static_initializer(did) {
        let alloc = alloc.inner();
        if tcx.type_of(did).instantiate_identity().skip_norm_wip().to_string().ends_with("str") && alloc.len() == 16 {
            let prov = alloc.provenance().ptrs();
            if let Some((_, p)) = prov.iter().next() {
                let bytes = alloc.inspect_with_uninit_and_ptr_outside_interpreter(8..16);
                let mut a = [0u8; 8];
                a.copy_from_slice(bytes);
                let len = u64::from_le_bytes(a) as usize;
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(p.alloc_id()) {
                    let m = m.inner();
                    if m.len() >= len {
                        let b = m.inspect_with_uninit_and_ptr_outside_interpreter(0..len);
                        return J::S(String::from_utf8_lossy(b).to_string());
                    }
                }
            }
        }
    }
    J::N
}

fn dump_adt(tcx: TyCtxt<'_>, did: DefId) -> J {
    let adt = tcx.adt_def(did);
    let variants = adt
        .variants()
        .iter_enumerated()
        .map(|(i, v)| {
            let disc = if adt.is_enum() {
                J::I(adt.discriminant_for_variant(tcx, i).val as i128)
            } else {
                J::N
            };
            J::O(vec![
                ("name", J::S(v.name.to_string())),
                ("disc", disc),
                (
                    "fields",
                    J::A(v
                        .fields
                        .iter()
                        .map(|f| {
                            J::O(vec![
                                ("name", J::S(f.name.to_string())),
                                (
                                    "ty",
                                    J::S(
                                        tcx.type_of(f.did)
                                            .instantiate_identity()
                                            .skip_norm_wip()
                                            .to_string(),
                                    ),
                                ),
                                ("pub", J::B(f.vis.is_public())),
                            ])
                        })
                        .collect()),
                ),
            ])
        })
        .collect();
    let mut v = vec![
        ("path", J::S(path(tcx, did))),
        ("kind", J::S(if adt.is_enum() { "enum" } else { "struct" }.into())),
        ("pub", J::B(tcx.visibility(did).is_public())),
        ("variants", J::A(variants)),
    ];
    v.extend(span_json(tcx, tcx.def_span(did)));
    J::O(v)
}

fn derived(tcx: TyCtxt<'_>, impl_did: DefId) -> bool {
    tcx.is_automatically_derived(impl_did)
}

fn dump_impl(tcx: TyCtxt<'_>, did: DefId) -> J {
    let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    let tr = tcx.impl_opt_trait_ref(did).map(|t| t.instantiate_identity().skip_norm_wip());
    let mut v = vec![
        ("id", J::S(uid(tcx, did))),
        ("self_ty", J::S(self_ty.to_string())),
        ("self_adt", adt_of(tcx, self_ty)),
        ("trait", tr.map(|t| J::S(path(tcx, t.def_id))).unwrap_or(J::N)),
        (
            "trait_args",
            tr.map(|t| J::A(t.args.iter().map(|a| J::S(a.to_string())).collect())).unwrap_or(J::N),
        ),
        ("derived", J::B(derived(tcx, did))),
        (
            "items",
            J::A(tcx
                .associated_items(did)
                .in_definition_order()
                .map(|i| J::S(uid(tcx, i.def_id)))
                .collect()),
        ),
    ];
    v.extend(span_json(tcx, tcx.def_span(did)));
    J::O(v)
}

fn adt_of<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> J {
    match t.kind() {
        ty::Adt(a, _) => J::S(path(tcx, a.did())),
        ty::Ref(_, t, _) => adt_of(tcx, *t),
        _ => J::N,
    }
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    did: DefId,
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, ldid: LocalDefId, kind: DefKind, body: &Body<'tcx>) -> J {
    let did = ldid.to_def_id();
    let env = TypingEnv::post_analysis(tcx, did);
    let cx = Cx { tcx, body, env, did };
    let mut v = vec![
        ("id", J::S(uid(tcx, did))),
        ("path", J::S(path(tcx, did))),
        ("kind", J::S(format!("{:?}", kind))),
    ];
    if kind == DefKind::Closure {
        v.push(("parent", J::S(uid(tcx, tcx.parent(did)))));
        v.push(("root", J::S(uid(tcx, tcx.typeck_root_def_id(did)))));
        let caps: Vec<J> = tcx
            .closure_captures(ldid)
            .iter()
            .map(|c| {
                J::O(vec![
                    ("name", J::S(c.to_symbol().to_string())),
                    ("by_ref", J::B(matches!(c.info.capture_kind, ty::UpvarCapture::ByRef(_)))),
                ])
            })
            .collect();
        v.push(("captures", J::A(caps)));
    } else {
        v.push(("name", J::S(tcx.item_name(did).to_string())));
        v.push(("pub", J::B(tcx.visibility(did).is_public())));
        v.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(ldid))));
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
        v.push(("unsafe", J::B(!sig.safety().is_safe())));
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let self_ty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            v.push(("self_ty", J::S(self_ty.to_string())));
            v.push(("self_adt", adt_of(tcx, self_ty)));
            v.push(("impl", J::S(uid(tcx, imp))));
            if let Some(t) = tcx.impl_opt_trait_ref(imp) {
                let t = t.instantiate_identity().skip_norm_wip();
                v.push(("trait", J::S(path(tcx, t.def_id))));
                v.push((
                    "trait_args",
                    J::A(t.args.iter().map(|a| J::S(a.to_string())).collect()),
                ));
            }
            v.push(("derived", J::B(derived(tcx, imp))));
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            v.push(("in_trait", J::S(path(tcx, tr))));
        }
    }
    v.extend(span_json(tcx, tcx.def_span(did)));
    v.push(("argc", J::I(body.arg_count as i128)));
    let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
    for vdi in &body.var_debug_info {
        if let VarDebugInfoContents::Place(p) = vdi.value {
            if p.projection.is_empty() {
                names[p.local.as_usize()] = Some(vdi.name.to_string());
            }
        }
    }
    let locals = body
        .local_decls
        .iter_enumerated()
        .map(|(l, d)| {
            let mut o = vec![("ty", J::S(d.ty.to_string())), ("adt", adt_of(tcx, d.ty))];
            if let Some(n) = &names[l.as_usize()] {
                o.push(("name", J::S(n.clone())));
            }
            if let ty::Closure(c, _) = d.ty.kind() {
                o.push(("closure", J::S(uid(tcx, *c))));
            }
            J::O(o)
        })
        .collect();
    v.push(("locals", J::A(locals)));
    let blocks = body
        .basic_blocks
        .iter()
        .map(|b| {
            J::O(vec![
                ("s", J::A(b.statements.iter().filter_map(|s| cx.stmt(s)).collect())),
                ("t", cx.term(b.terminator())),
                ("c", J::B(b.is_cleanup)),
            ])
        })
        .collect();
    v.push(("blocks", J::A(blocks)));
    if body.source.promoted.is_none() {
        let proms: Vec<J> = tcx
            .promoted_mir(did)
            .iter()
            .map(|b| {
                let cx = Cx { tcx, body: b, env, did };
                J::O(vec![
                    ("id", J::S(uid(tcx, did))),
                    ("path", J::S(path(tcx, did))),
                    ("kind", J::S("Promoted".to_string())),
                    ("argc", J::I(0)),
                    ("locals", J::A(b.local_decls.iter().map(|d| {
                        let mut o = vec![("ty", J::S(d.ty.to_string())), ("adt", adt_of(tcx, d.ty))];
                        if let ty::Closure(c, _) = d.ty.kind() {
                            o.push(("closure", J::S(uid(tcx, *c))));
                        }
                        J::O(o)
                    }).collect())),
                    ("blocks", J::A(b.basic_blocks.iter().map(|b| {
                        J::O(vec![
                            ("s", J::A(b.statements.iter().filter_map(|s| cx.stmt(s)).collect())),
                            ("t", cx.term(b.terminator())),
                            ("c", J::B(b.is_cleanup)),
                        ])
                    }).collect())),
                ])
            })
            .collect();
        v.push(("promoted", J::A(proms)));
    }
    J::O(v)
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::O(vec![("k", J::S("deref".into()))]),
                ProjectionElem::Field(f, fty) => {
                    let mut o = vec![("k", J::S("field".into())), ("i", J::I(f.as_usize() as i128))];
                    if let ty::Adt(adt, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if adt.is_enum() || adt.is_struct() {
                            let var = adt.variant(vi);
                            o.push(("n", J::S(var.fields[f].name.to_string())));
                        }
                        o.push(("adt", J::S(path(self.tcx, adt.did()))));
                    }
                    o.push(("ty", J::S(fty.to_string())));
                    J::O(o)
                }
                ProjectionElem::Index(l) => {
                    J::O(vec![("k", J::S("index".into())), ("l", J::I(l.as_usize() as i128))])
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::O(vec![
                    ("k", J::S("cindex".into())),
                    ("i", J::I(offset as i128)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("k", J::S("subslice".into())),
                    ("from", J::I(from as i128)),
                    ("to", J::I(to as i128)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(name, vi) => J::O(vec![
                    ("k", J::S("down".into())),
                    ("v", J::S(name.map(|n| n.to_string()).unwrap_or_else(|| format!("{}", vi.as_usize())))),
                ]),
                _ => J::O(vec![("k", J::S("other".into()))]),
            };
            proj.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::O(vec![("l", J::I(p.local.as_usize() as i128)), ("p", J::A(proj))])
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> J {
        let ty = c.const_.ty();
        let mut o = vec![("k", J::S("const".into())), ("ty", J::S(ty.to_string()))];
        match ty.kind() {
            ty::FnDef(did, args) => {
                o.push(("fn", self.callee(*did, args.skip_binder())));
                return J::O(o);
            }
            ty::Closure(did, _) => {
                o.push(("closure", J::S(uid(self.tcx, *did))));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("path", J::S(path(self.tcx, u.def))));
        }
        if let Some(s) = c.const_.try_eval_scalar_int(self.tcx, self.env) {
            let size = s.size();
            let bits = s.to_bits(size);
            match ty.kind() {
                ty::Bool => o.push(("v", J::B(bits != 0))),
                ty::Char => {
                    o.push(("v", J::S(char::from_u32(bits as u32).unwrap_or('\u{fffd}').to_string())))
                }
                ty::Int(_) => o.push(("v", J::I(s.to_int(size)))),
                ty::Float(_) => {
                    o.push(("bits", J::S(format!("{:x}", bits))));
                    if size.bytes() == 8 {
                        o.push(("f", J::S(format!("{:?}", f64::from_bits(bits as u64)))));
                    } else if size.bytes() == 4 {
                        o.push(("f", J::S(format!("{:?}", f32::from_bits(bits as u32)))));
                    }
                }
                _ => o.push(("v", J::S(format!("{}", bits)))),
            }
            if let ty::Uint(_) = ty.kind() {
                o.pop();
                o.push(("v", J::I(bits as i128)));
            }
            return J::O(o);
        }
        let promoted = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("prom", J::A(vec![J::S(uid(self.tcx, u.def)), J::I(p.as_usize() as i128)])));
            }
        }
        if !c.const_.has_param() || promoted {
            if let Ok(val) = c.const_.eval(self.tcx, self.env, c.span) {
                let sliceish = matches!(ty.kind(), ty::Ref(_, inner, _) if inner.is_str() || inner.is_slice());
                let slice = if sliceish { val.try_get_slice_bytes_for_diagnostics(self.tcx) } else { None };
                if let Some(b) = slice {
                    if ty.to_string().ends_with("str") {
                        o.push(("v", J::S(String::from_utf8_lossy(b).to_string())));
                    } else {
                        o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                    }
                    return J::O(o);
                }
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = val {
                    match self.tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                        Some(GlobalAlloc::Static(did)) => {
                            o.push(("static", J::S(path(self.tcx, did))));
                        }
                        Some(GlobalAlloc::Memory(m)) => {
                            let m = m.inner();
                            if let ty::Ref(_, inner, _) = ty.kind() {
                                let raw = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len());
                                let at = p.into_raw_parts().1.bytes_usize();
                                match inner.kind() {
                                    // a promoted `&&str`
                                    ty::Ref(_, s, _) if s.is_str() && m.len() >= at + 16 => {
                                        let mut n = [0u8; 8];
                                        n.copy_from_slice(&raw[at + 8..at + 16]);
                                        let n = u64::from_le_bytes(n) as usize;
                                        let mut a8 = [0u8; 8];
                                        a8.copy_from_slice(&raw[at..at + 8]);
                                        let off = u64::from_le_bytes(a8) as usize;
                                        if let Some((_, prov)) = m.provenance().ptrs().iter().find(|(o, _)| o.bytes_usize() == at) {
                                            if let Some(GlobalAlloc::Memory(t)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                                                let t = t.inner();
                                                if t.len() >= off + n {
                                                    let b = t.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
                                                    o.push(("v", J::S(String::from_utf8_lossy(b).to_string())));
                                                    return J::O(o);
                                                }
                                            }
                                        }
                                    }
                                    ty::Char if raw.len() >= at + 4 => {
                                        let mut n = [0u8; 4];
                                        n.copy_from_slice(&raw[at..at + 4]);
                                        if let Some(ch) = char::from_u32(u32::from_le_bytes(n)) {
                                            o.push(("v", J::S(ch.to_string())));
                                            return J::O(o);
                                        }
                                    }
                                    _ => {}
                                }
                            }
                            if m.provenance().ptrs().is_empty() && m.len() <= 64 {
                                let b = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len());
                                o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        o.push(("s", J::S(format!("{}", c.const_))));
        J::O(o)
    }

    fn callee(&self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", J::S(path(tcx, did))),
            ("id", J::S(uid(tcx, did))),
            ("crate", J::S(tcx.crate_name(did.krate).to_string())),
            ("name", J::S(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())),
            ("args", J::A(args.iter().map(|a| J::S(a.to_string())).collect())),
        ];
        let closures: Vec<J> = args
            .iter()
            .filter_map(|a| a.as_type())
            .filter_map(|t| match t.kind() {
                ty::Closure(c, _) => Some(J::S(uid(tcx, *c))),
                _ => None,
            })
            .collect();
        if !closures.is_empty() {
            o.push(("closures", J::A(closures)));
        }
        // function items passed as generic arguments
        let fnargs: Vec<J> = args
            .iter()
            .filter_map(|a| a.as_type())
            .filter_map(|t| match t.kind() {
                ty::FnDef(c, _) => Some(J::S(uid(tcx, *c))),
                _ => None,
            })
            .collect();
        if !fnargs.is_empty() {
            o.push(("fnargs", J::A(fnargs)));
        }
        if let Some(t) = tcx.trait_of_assoc(did) {
            o.push(("trait", J::S(path(tcx, t))));
            if let Some(st) = args.types().next() {
                o.push(("self", J::S(st.to_string())));
                o.push(("self_adt", adt_of(tcx, st)));
                if let ty::Closure(c, _) = st.kind() {
                    o.push(("self_closure", J::S(uid(tcx, *c))));
                }
            }
        }
        if let Some(imp) = tcx.impl_of_assoc(did) {
            o.push(("self", J::S(tcx.type_of(imp).instantiate_identity().skip_norm_wip().to_string())));
            o.push(("self_adt", adt_of(tcx, tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
        }
        let generics_ok = !args.iter().any(|a| a.has_infer());
        if generics_ok {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, args) {
                let r = inst.def_id();
                if r != did {
                    o.push(("res", J::S(uid(tcx, r))));
                    o.push(("res_path", J::S(path(tcx, r))));
                    o.push(("res_crate", J::S(tcx.crate_name(r.krate).to_string())));
                } else if tcx.trait_of_assoc(did).is_some() {
                    // default method body or virtual
                    o.push(("resolved_self", J::B(true)));
                }
                o.push(("res_args", J::A(inst.args.iter().map(|a| J::S(a.to_string())).collect())));
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    o.push(("virtual", J::B(true)));
                }
            } else {
                o.push(("unresolved", J::B(true)));
            }
        }
        J::O(o)
    }

    fn op(&self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", J::S("copy".into())), ("p", self.place(p))]),
            Operand::Move(p) => J::O(vec![("k", J::S("move".into())), ("p", self.place(p))]),
            Operand::Constant(c) => self.konst(c),
            _ => J::O(vec![("k", J::S("runtime".into()))]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        let s = |x: &str| J::S(x.to_string());
        match r {
            Rvalue::Use(op, ..) => J::O(vec![("k", s("use")), ("o", self.op(op))]),
            Rvalue::Repeat(op, n) => {
                J::O(vec![("k", s("repeat")), ("o", self.op(op)), ("n", J::S(n.to_string()))])
            }
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("rawptr")), ("p", self.place(p))]),
            Rvalue::Cast(ck, op, t) => J::O(vec![
                ("k", s("cast")),
                ("c", J::S(format!("{:?}", ck))),
                ("o", self.op(op)),
                ("ty", J::S(t.to_string())),
                ("from", J::S(op.ty(&self.body.local_decls, self.tcx).to_string())),
            ]),
            Rvalue::BinaryOp(b, ops) => J::O(vec![
                ("k", s("bin")),
                ("op", J::S(format!("{:?}", b))),
                ("a", self.op(&ops.0)),
                ("b", self.op(&ops.1)),
                ("ty", J::S(ops.0.ty(&self.body.local_decls, self.tcx).to_string())),
            ]),
            Rvalue::UnaryOp(u, op) => J::O(vec![
                ("k", s("un")),
                ("op", J::S(format!("{:?}", u))),
                ("a", self.op(op)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.tcx).ty;
                let mut map = vec![];
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.is_enum() {
                        for (i, v) in adt.variants().iter_enumerated() {
                            let d = adt.discriminant_for_variant(self.tcx, i).val;
                            map.push(J::A(vec![J::I(d as i128), J::S(v.name.to_string())]));
                        }
                    }
                }
                J::O(vec![
                    ("k", s("discr")),
                    ("p", self.place(p)),
                    ("adt", adt_of(self.tcx, t)),
                    ("variants", J::A(map)),
                ])
            }
            Rvalue::Aggregate(kind, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.op(o)).collect();
                match &**kind {
                    AggregateKind::Array(_) => {
                        J::O(vec![("k", s("agg")), ("a", s("array")), ("o", J::A(ops))])
                    }
                    AggregateKind::Tuple => {
                        J::O(vec![("k", s("agg")), ("a", s("tuple")), ("o", J::A(ops))])
                    }
                    AggregateKind::Adt(did, vi, _, _, active) => {
                        let adt = self.tcx.adt_def(*did);
                        let v = adt.variant(*vi);
                        let names = v.fields.iter().map(|f| J::S(f.name.to_string())).collect();
                        let mut o = vec![
                            ("k", s("agg")),
                            ("a", s("adt")),
                            ("adt", J::S(path(self.tcx, *did))),
                            ("v", J::S(v.name.to_string())),
                            ("enum", J::B(adt.is_enum())),
                            ("f", J::A(names)),
                            ("o", J::A(ops)),
                        ];
                        if active.is_some() {
                            o.push(("union", J::B(true)));
                        }
                        J::O(o)
                    }
                    AggregateKind::Closure(did, _) => J::O(vec![
                        ("k", s("agg")),
                        ("a", s("closure")),
                        ("id", J::S(uid(self.tcx, *did))),
                        ("o", J::A(ops)),
                    ]),
                    _ => J::O(vec![("k", s("agg")), ("a", s("other")), ("o", J::A(ops))]),
                }
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", s("use")),
                ("o", J::O(vec![("k", s("copy")), ("p", self.place(p))])),
            ]),
            Rvalue::ThreadLocalRef(d) => {
                J::O(vec![("k", s("tls")), ("path", J::S(path(self.tcx, *d)))])
            }
            _ => J::O(vec![("k", s("other")), ("s", J::S(format!("{:?}", r)))]),
        }
    }

    fn stmt(&self, st: &Statement<'tcx>) -> Option<J> {
        match &st.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let mut v = vec![
                    ("k", J::S("=".into())),
                    ("p", self.place(p)),
                    ("r", self.rvalue(r)),
                ];
                v.extend(span_json(self.tcx, st.source_info.span));
                Some(J::O(v))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(J::O(vec![
                ("k", J::S("setdiscr".into())),
                ("p", self.place(place)),
                ("v", J::I(variant_index.as_usize() as i128)),
            ])),
            _ => None,
        }
    }

    fn term(&self, t: &Terminator<'tcx>) -> J {
        let s = |x: &str| J::S(x.to_string());
        let bb = |b: BasicBlock| J::I(b.as_usize() as i128);
        let mut v = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", bb(*target))],
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&self.body.local_decls, self.tcx);
                let tg = targets
                    .iter()
                    .map(|(v, b)| {
                        let v = if let ty::Int(_) = ty.kind() {
                            // sign extend
                            let size = rustc_middle::ty::layout::LayoutCx::new(self.tcx, self.env);
                            let _ = &size;
                            v as i128
                        } else {
                            v as i128
                        };
                        J::A(vec![J::I(v), bb(b)])
                    })
                    .collect();
                vec![
                    ("k", s("switch")),
                    ("o", self.op(discr)),
                    ("ty", J::S(ty.to_string())),
                    ("tg", J::A(tg)),
                    ("else", bb(targets.otherwise())),
                ]
            }
            TerminatorKind::Return => vec![("k", s("return"))],
            TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
            TerminatorKind::Drop { place, target, .. } => {
                vec![("k", s("drop")), ("p", self.place(place)), ("t", bb(*target))]
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let mut o = vec![
                    ("k", s("call")),
                    ("f", self.op(func)),
                    ("a", J::A(args.iter().map(|a| self.op(&a.node)).collect())),
                    (
                        "at",
                        J::A(args
                            .iter()
                            .map(|a| {
                                J::S(a.node.ty(&self.body.local_decls, self.tcx).to_string())
                            })
                            .collect()),
                    ),
                    ("d", self.place(destination)),
                    (
                        "dt",
                        J::S(destination.ty(&self.body.local_decls, self.tcx).ty.to_string()),
                    ),
                ];
                if let Some(t) = target {
                    o.push(("t", bb(*t)));
                }
                o
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let kind = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                    AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                    AssertKind::DivisionByZero(_) => "div0".to_string(),
                    AssertKind::RemainderByZero(_) => "rem0".to_string(),
                    _ => "other".to_string(),
                };
                let mut o = vec![
                    ("k", s("assert")),
                    ("o", self.op(cond)),
                    ("e", J::B(*expected)),
                    ("m", J::S(kind)),
                    ("t", bb(*target)),
                ];
                match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        o.push(("len", self.op(len)));
                        o.push(("index", self.op(index)));
                    }
                    AssertKind::Overflow(_, a, b) => {
                        o.push(("a", self.op(a)));
                        o.push(("b", self.op(b)));
                        o.push(("ty", J::S(a.ty(&self.body.local_decls, self.tcx).to_string())));
                    }
                    _ => {}
                }
                o
            }
            TerminatorKind::FalseEdge { real_target, .. } => vec![("k", s("goto")), ("t", bb(*real_target))],
            TerminatorKind::FalseUnwind { real_target, .. } => {
                vec![("k", s("goto")), ("t", bb(*real_target))]
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![("k", s("resume"))],
            other => vec![("k", s("other")), ("s", J::S(format!("{:?}", other)))],
        };
        let _ = self.did;
        v.extend(span_json(self.tcx, t.source_info.span));
        J::O(v)
    }
}
