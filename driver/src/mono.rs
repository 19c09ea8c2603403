//! The instance graph: which functions of this crate can run which, with every type parameter known.
//! Walks the MIR of library code as well, so callbacks (hashing, comparing, cloning, formatting, iterating,
//! vtables, function pointers) are edges like any other.
use crate::json::J;
use crate::uid;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::{self, EarlyBinder, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::HashMap;

type Key<'tcx> = (Option<DefId>, Instance<'tcx>);

pub struct Graph<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<Key<'tcx>, usize>,
    keys: Vec<Key<'tcx>>,
    succ: Vec<Vec<usize>>,
    open: Vec<bool>,
}

struct Collect<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    inst: Instance<'tcx>,
    body: &'a Body<'tcx>,
    out: Vec<Instance<'tcx>>,
    open: bool,
}

impl<'a, 'tcx> Collect<'a, 'tcx> {
    fn mono(&mut self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match self.inst.try_instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            self.env,
            EarlyBinder::bind(self.tcx, t),
        ) {
            Ok(t) => Some(t),
            Err(_) => {
                self.open = true;
                None
            }
        }
    }

    fn mention(&mut self, t: Ty<'tcx>) {
        let Some(t) = self.mono(t) else { return };
        match *t.kind() {
            ty::FnDef(did, args) => {
                if self.tcx.intrinsic(did).is_some() {
                    return;
                }
                let args = self.tcx.erase_and_anonymize_regions(args.skip_binder());
                match Instance::try_resolve(self.tcx, self.env, did, args) {
                    Ok(Some(i)) => self.out.push(i),
                    _ => self.open = true,
                }
            }
            ty::Closure(did, args) => {
                self.out.push(Instance::resolve_closure(self.tcx, did, args, ty::ClosureKind::FnOnce));
            }
            _ => {}
        }
    }

    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) {
        let (Some(src), Some(dst)) = (self.mono(src), self.mono(dst)) else { return };
        let mut preds = vec![];
        for t in dst.walk() {
            if let Some(t) = t.as_type() {
                if let ty::Dynamic(p, ..) = t.kind() {
                    if let Some(p) = p.principal() {
                        preds.push(p);
                    }
                }
            }
        }
        if preds.is_empty() {
            return;
        }
        // every type the pointer mentions may be the one behind it
        for t in src.walk() {
            let Some(t) = t.as_type() else { continue };
            if matches!(t.kind(), ty::Dynamic(..) | ty::Ref(..) | ty::RawPtr(..)) || t.has_escaping_bound_vars() {
                continue;
            }
            for p in &preds {
                let tr = self.tcx.instantiate_bound_regions_with_erased(p.with_self_ty(self.tcx, t));
                let tr = self.tcx.erase_and_anonymize_regions(tr);
                if tr.has_param() || tr.has_aliases() {
                    self.open = true;
                    continue;
                }
                if !self.tcx.type_implements(tr, self.env) {
                    continue;
                }
                for e in self.tcx.vtable_entries(tr) {
                    if let ty::VtblEntry::Method(i) = e {
                        self.out.push(*i);
                    }
                }
            }
        }
    }
}

trait Implements<'tcx> {
    fn type_implements(self, tr: ty::TraitRef<'tcx>, env: TypingEnv<'tcx>) -> bool;
}

impl<'tcx> Implements<'tcx> for TyCtxt<'tcx> {
    fn type_implements(self, tr: ty::TraitRef<'tcx>, env: TypingEnv<'tcx>) -> bool {
        self.codegen_select_candidate(env.as_query_input(tr)).is_ok()
    }
}

impl<'a, 'tcx> Visitor<'tcx> for Collect<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, loc: Location) {
        self.mention(c.const_.ty());
        self.super_const_operand(c, loc);
    }

    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, loc: Location) {
        match r {
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize, _), op, dst) => {
                let src = op.ty(self.body, self.tcx);
                self.vtable(src, *dst);
            }
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_), _), op, _) => {
                let src = op.ty(self.body, self.tcx);
                self.mention(src);
            }
            Rvalue::Aggregate(k, _) => {
                if let AggregateKind::Closure(..) = **k {
                    let t = r.ty(self.body, self.tcx);
                    self.mention(t);
                }
            }
            _ => {}
        }
        self.super_rvalue(r, loc);
    }
}

impl<'tcx> Graph<'tcx> {
    fn node(&mut self, root: Option<DefId>, i: Instance<'tcx>, work: &mut Vec<usize>) -> usize {
        let k = (if i.args.has_param() { root } else { None }, i);
        if let Some(n) = self.ids.get(&k) {
            return *n;
        }
        let n = self.keys.len();
        self.ids.insert(k, n);
        self.keys.push(k);
        self.succ.push(vec![]);
        self.open.push(false);
        work.push(n);
        n
    }

    fn visit(&mut self, n: usize, work: &mut Vec<usize>) {
        let tcx = self.tcx;
        let (root, inst) = self.keys[n];
        match inst.def {
            ty::InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) || !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                    return;
                }
            }
            ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => return,
            ty::InstanceKind::Shim(..) => {}
            _ => return,
        }
        let env = match root {
            Some(d) => TypingEnv::post_analysis(tcx, d),
            None => TypingEnv::fully_monomorphized(),
        };
        let body = tcx.instance_mir(inst.def);
        let mut c = Collect { tcx, env, inst, body, out: vec![], open: false };
        c.visit_body(body);
        if let ty::InstanceKind::Item(d) = inst.def {
            for p in tcx.promoted_mir(d).iter() {
                c.body = p;
                c.visit_body(p);
            }
        }
        let (out, open) = (c.out, c.open);
        self.open[n] = open;
        for i in out {
            let m = self.node(root, i, work);
            if !self.succ[n].contains(&m) {
                self.succ[n].push(m);
            }
        }
    }
}

fn local(i: &Instance<'_>) -> bool {
    matches!(i.def, ty::InstanceKind::Item(d) if d.is_local())
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut g = Graph { tcx, ids: HashMap::new(), keys: vec![], succ: vec![], open: vec![] };
    let mut work = vec![];
    for ldid in tcx.hir_body_owners() {
        let did = ldid.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did));
        let i = Instance::new_raw(did, args);
        g.node(Some(did), i, &mut work);
    }
    while let Some(n) = work.pop() {
        g.visit(n, &mut work);
    }
    // local instances only; library code in between is a path
    let mut out = vec![];
    for n in 0..g.keys.len() {
        if !local(&g.keys[n].1) {
            continue;
        }
        let mut seen = vec![n];
        let mut st: Vec<usize> = g.succ[n].clone();
        let mut to: Vec<usize> = vec![];
        let mut ext: std::collections::HashSet<usize> = Default::default();
        let mut open = g.open[n];
        seen.clear();
        while let Some(m) = st.pop() {
            if local(&g.keys[m].1) {
                if !to.contains(&m) {
                    to.push(m);
                }
                continue;
            }
            if ext.insert(m) {
                open = open || g.open[m];
                st.extend(g.succ[m].iter().copied());
            }
        }
        to.sort();
        out.push(J::O(vec![
            ("n", J::I(n as i128)),
            ("b", J::S(uid(tcx, g.keys[n].1.def_id()))),
            ("args", J::S(g.keys[n].1.args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", "))),
            ("root", g.keys[n].0.map(|d| J::S(uid(tcx, d))).unwrap_or(J::N)),
            ("open", J::B(open)),
            ("e", J::A(to.iter().map(|m| J::I(*m as i128)).collect())),
        ]));
    }
    J::A(out)
}
