#![allow(deprecated)]
//! `mirdump`: a rustc driver that type-checks a crate and dumps its
//! (drop-elaborated, unoptimised) MIR, fully resolved per instance, as JSON.
//! No code of the analysed crate is executed; constants are taken from the
//! compiler's own constant evaluation.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::{n, s, J};

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt,
    TypingEnv,
};
use std::collections::{HashMap, HashSet, VecDeque};

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Ok(out) = std::env::var("MIRDUMP_OUT") {
            let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "pdf_writer".into());
            if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() == want {
                let mut d = Dump::new(tcx);
                let j = d.run();
                let mut text = String::new();
                j.write(&mut text);
                std::fs::write(out, text).unwrap();
            }
        }
        rustc_driver::Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<(Ty<'tcx>, usize), usize>,
    adts: Vec<(String, J)>,
    adt_seen: HashSet<DefId>,
    queue: VecDeque<(String, Instance<'tcx>, DefId)>,
    seen: HashSet<String>,
    fns: Vec<(String, J)>,
    stop: Vec<String>,
}

fn mentions_param<'tcx>(x: impl TypeVisitableExt<TyCtxt<'tcx>>) -> bool {
    x.has_non_region_param()
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        let stop = std::env::var("MIRDUMP_STOP")
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .unwrap_or_default()
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .collect();
        Dump {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            adts: vec![],
            adt_seen: HashSet::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            fns: vec![],
            stop,
        }
    }

    fn env(&self, root: DefId) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, root)
    }

    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn norm(&self, t: Ty<'tcx>, root: DefId) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(self.env(root), ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn inst_key(&self, i: Instance<'tcx>, root: DefId) -> String {
        let base = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args));
        let mut k = match i.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Intrinsic(_) => format!("intrinsic {base}"),
            InstanceKind::Virtual(..) => format!("virtual {base}"),
            other => with_no_trimmed_paths!(format!("shim {base} {other:?}")),
        };
        if self.tcx.def_kind(i.def_id()) == DefKind::Closure {
            k = format!("{k}#{:?}", self.tcx.def_span(i.def_id()));
        }
        if mentions_param(i.args) {
            k.push_str(" @ ");
            k.push_str(&self.path(root));
        }
        k
    }

    fn enqueue(&mut self, i: Instance<'tcx>, root: DefId) -> (String, bool) {
        let key = self.inst_key(i, root);
        let tcx = self.tcx;
        let avail = match i.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d),
            InstanceKind::Intrinsic(_)
            | InstanceKind::LlvmIntrinsic(_)
            | InstanceKind::Virtual(..) => false,
            _ => true,
        };
        let stopped = !i.def_id().is_local() && {
            let p = self.path(i.def_id());
            self.stop.iter().any(|x| {
                if let Some(pre) = x.strip_suffix('*') {
                    p.starts_with(pre)
                } else {
                    &p == x
                }
            })
        };
        let has = avail && !stopped;
        if has && self.seen.insert(key.clone()) {
            self.queue.push_back((key.clone(), i, root));
        }
        (key, has)
    }

    fn ty(&mut self, t: Ty<'tcx>, root: DefId) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let rid = if mentions_param(t) { root.index.as_usize() + 1 } else { 0 };
        if let Some(&i) = self.tymap.get(&(t, rid)) {
            return i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert((t, rid), id);
        let name = with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(name))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(it) => {
                o.push(("k", s("int")));
                o.push(("bits", n(it.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(it) => {
                o.push(("k", s("uint")));
                o.push(("bits", n(it.bit_width().unwrap_or(64) as usize)));
            }
            ty::Float(f) => {
                o.push(("k", s("float")));
                o.push(("bits", n(f.bit_width() as usize)));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(*e, root);
                o.push(("elem", n(e)));
            }
            ty::Array(e, len) => {
                o.push(("k", s("array")));
                let l = len.try_to_target_usize(self.tcx);
                let e = self.ty(*e, root);
                o.push(("elem", n(e)));
                o.push(("len", l.map_or(J::Null, |l| J::Int(l as i128))));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                let e = self.ty(*e, root);
                o.push(("elem", n(e)));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::Bool(m.is_mut())));
                let e = self.ty(*e, root);
                o.push(("elem", n(e)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| n(self.ty(x, root))).collect();
                o.push(("elems", J::Arr(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("local", J::Bool(def.did().is_local())));
                let targs: Vec<J> = args.types().map(|x| n(self.ty(x, root))).collect();
                o.push(("targs", J::Arr(targs)));
                o.push((
                    "akind",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let mut vs = vec![];
                let discrs: Vec<(rustc_abi::VariantIdx, ty::util::Discr<'tcx>)> =
                    if def.is_enum() { def.discriminants(self.tcx).collect() } else { vec![] };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(self.tcx, args);
                        let fty = self.norm(fty.skip_norm_wip(), root);
                        let fid = self.ty(fty, root);
                        fs.push(J::Arr(vec![s(f.name.to_string()), n(fid)]));
                    }
                    let discr = discrs.iter().find(|(i, _)| *i == vi).map(|(_, d)| d.val);
                    vs.push(J::Obj(vec![
                        ("name", s(v.name.to_string())),
                        ("discr", discr.map_or(J::Null, J::Big)),
                        ("fields", J::Arr(fs)),
                    ]));
                }
                o.push(("variants", J::Arr(vs)));
                // Drop impl.
                if let Some(d) = self.tcx.adt_destructor(def.did()) {
                    let inst = Instance::try_resolve(self.tcx, self.env(root), d.did, args);
                    if let Ok(Some(inst)) = inst {
                        let (k, has) = self.enqueue(inst, root);
                        o.push(("drop", s(k)));
                        o.push(("drop_mir", J::Bool(has)));
                    } else {
                        o.push(("drop", s("?")));
                    }
                }
                if def.did().is_local() && self.adt_seen.insert(def.did()) {
                    let j = self.adt_info(def.did());
                    let p = self.path(def.did());
                    self.adts.push((p, j));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path((*d).into()))));
                let up: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x, root))).collect();
                o.push(("upvars", J::Arr(up)));
                let inst = Instance::new_raw((*d).into(), args);
                let (k, _) = self.enqueue(inst, root);
                o.push(("fn", s(k)));
                let kind = args.as_closure().kind();
                o.push(("ckind", s(format!("{kind:?}"))));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let did: DefId = (*d).into();
                let r = self.resolve(did, args, root);
                o.push(("callee", r));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::Obj(o);
        id
    }

    fn adt_info(&mut self, did: DefId) -> J {
        let tcx = self.tcx;
        let def = tcx.adt_def(did);
        let vis = tcx.effective_visibilities(());
        let reach = did.as_local().is_some_and(|l| vis.is_reachable(l));
        let mut vs = vec![];
        for v in def.variants() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                fs.push(J::Obj(vec![
                    ("name", s(f.name.to_string())),
                    ("pub", J::Bool(f.vis.is_public())),
                    ("doc", s(self.doc(f.did))),
                ]));
            }
            vs.push(J::Obj(vec![
                ("name", s(v.name.to_string())),
                ("doc", s(self.doc(v.def_id))),
                ("fields", J::Arr(fs)),
            ]));
        }
        J::Obj(vec![
            ("reachable", J::Bool(reach)),
            ("doc", s(self.doc(did))),
            ("variants", J::Arr(vs)),
            ("file", self.span(tcx.def_span(did))),
            ("must_use", J::Bool(self.has_must_use(did))),
        ])
    }

    fn has_must_use(&self, d: DefId) -> bool {
        self.tcx
            .get_all_attrs(d)
            .iter()
            .any(|a| format!("{a:?}").contains("MustUse"))
    }

    fn doc(&self, d: DefId) -> String {
        let mut out = String::new();
        for a in self.tcx.get_all_attrs(d) {
            if let Some(t) = rustc_ast_doc(a) {
                out.push_str(&t);
                out.push('\n');
            }
        }
        out
    }

    fn resolve(&mut self, did: DefId, args: GenericArgsRef<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let path = self.path(did);
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path.clone()))];
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(did, args));
        o.push(("full", s(full)));
        o.push(("local", J::Bool(did.is_local())));
        let targs: Vec<J> = args.types().map(|x| n(self.ty(x, root))).collect();
        o.push(("targs", J::Arr(targs)));
        let cargs: Vec<J> = args
            .consts()
            .map(|c| c.try_to_target_usize(tcx).map_or(J::Null, |v| J::Int(v as i128)))
            .collect();
        o.push(("cargs", J::Arr(cargs)));
        if let DefKind::Ctor(of, _) = tcx.def_kind(did) {
            o.push(("kind", s("ctor")));
            let _ = of;
            let parent = tcx.parent(did);
            let (adt, vidx) = if tcx.def_kind(parent) == DefKind::Variant {
                let adt = tcx.parent(parent);
                let vi = tcx.adt_def(adt).variant_index_with_id(parent).as_usize();
                (adt, vi)
            } else {
                (parent, 0)
            };
            o.push(("adt", s(self.path(adt))));
            o.push(("variant", n(vidx)));
            return J::Obj(o);
        }
        // Trait information.
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(self.path(tr))));
        }
        o.push(("name", s(tcx.item_name(did).to_string())));
        let inst = Instance::try_resolve(tcx, self.env(root), did, args);
        match inst {
            Ok(Some(i)) => {
                let (k, has) = self.enqueue(i, root);
                o.push(("key", s(k)));
                o.push(("has", J::Bool(has)));
                // A std iterator's override of a provided `Iterator` method: also
                // offer the provided body (the documented semantics of the method).
                if let Some(tr) = tcx.trait_of_assoc(did) {
                    let tp = self.path(tr);
                    if (tp == "std::iter::Iterator" || tp == "std::iter::DoubleEndedIterator")
                        && i.def_id() != did
                        && !i.def_id().is_local()
                        && tcx.defaultness(did).has_value()
                        && tcx.is_mir_available(did)
                    {
                        let di = Instance::new_raw(did, args);
                        let dk = format!("default {}", self.inst_key(di, root));
                        if self.seen.insert(dk.clone()) {
                            self.queue.push_back((dk.clone(), di, root));
                        }
                        o.push(("dkey", s(dk)));
                    }
                }
                // `Extend::extend` of a foreign collection and `Iterator::collect`: also
                // offer the element source, so that the analysis can follow it.
                if let Some(tr) = tcx.trait_of_assoc(did) {
                    let tp = self.path(tr);
                    let nm = tcx.item_name(did).to_string();
                    let src = match (tp.as_str(), nm.as_str()) {
                        ("std::iter::Extend", "extend") if !i.def_id().is_local() => {
                            args.types().nth(2)
                        }
                        ("std::iter::Iterator", "collect") => args.types().next(),
                        _ => None,
                    };
                    if let Some(src) = src {
                        if let Some(it) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
                            let into = tcx.lang_items().into_iter_fn();
                            let next = tcx.lang_items().next_fn();
                            let _ = it;
                            if let (Some(into), Some(next)) = (into, next) {
                                let ia = tcx.mk_args(&[src.into()]);
                                let out = tcx
                                    .fn_sig(into)
                                    .instantiate(tcx, ia)
                                    .skip_norm_wip()
                                    .output();
                                let out = self.norm(
                                    tcx.instantiate_bound_regions_with_erased(out),
                                    root,
                                );
                                let ic = self.resolve(into, ia, root);
                                let nc = self.resolve(next, tcx.mk_args(&[out.into()]), root);
                                o.push(("icallee", ic));
                                o.push(("ncallee", nc));
                            }
                        }
                    }
                }
                o.push(("rpath", s(self.path(i.def_id()))));
                o.push(("rlocal", J::Bool(i.def_id().is_local())));
                o.push((
                    "kind",
                    s(match i.def {
                        InstanceKind::Item(_) => "item",
                        InstanceKind::Intrinsic(_) => "intrinsic",
                        InstanceKind::LlvmIntrinsic(_) => "llvm",
                        InstanceKind::Virtual(..) => "virtual",
                        _ => "shim",
                    }),
                ));
            }
            _ => {
                o.push(("kind", s("unresolved")));
                // A provided method of a generic iterator: its provided body.
                if let Some(tr) = tcx.trait_of_assoc(did) {
                    let tp = self.path(tr);
                    if (tp == "std::iter::Iterator" || tp == "std::iter::DoubleEndedIterator")
                        && tcx.defaultness(did).has_value()
                        && tcx.is_mir_available(did)
                    {
                        let di = Instance::new_raw(did, args);
                        let dk = format!("default {}", self.inst_key(di, root));
                        if self.seen.insert(dk.clone()) {
                            self.queue.push_back((dk.clone(), di, root));
                        }
                        o.push(("dkey", s(dk)));
                    }
                }
            }
        }
        J::Obj(o)
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::Arr(vec![s(name), n(lo.line)])
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>, root: DefId) -> J {
        let _ = body;
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(t, root);
                    let t = self.ty(t, root);
                    J::Arr(vec![s("f"), n(f.as_usize()), n(t)])
                }
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    s("c"),
                    J::Int(offset as i128),
                    J::Int(min_length as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    s("s"),
                    J::Int(from as i128),
                    J::Int(to as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Downcast(_, v) => J::Arr(vec![s("d"), n(v.as_usize())]),
                _ => J::Arr(vec![s("o")]),
            });
        }
        J::Arr(vec![n(p.local.as_usize()), J::Arr(pr)])
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, root: DefId) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![s("c"), self.place(p, body, root)]),
            Operand::Move(p) => J::Arr(vec![s("m"), self.place(p, body, root)]),
            Operand::Constant(c) => {
                let t = self.norm(c.const_.ty(), root);
                let tid = self.ty(t, root);
                let v = self.konst(c.const_, t, root, c.span);
                J::Arr(vec![s("k"), n(tid), v])
            }
            Operand::RuntimeChecks(r) => J::Arr(vec![s("rc"), s(format!("{r:?}"))]),
        }
    }

    fn konst(&mut self, c: Const<'tcx>, t: Ty<'tcx>, root: DefId, span: rustc_span::Span) -> J {
        if let ty::FnDef(..) = t.kind() {
            return J::Arr(vec![s("fn")]);
        }
        let mut name = J::Null;
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                name = s(with_no_trimmed_paths!(self.tcx.def_path_str_with_args(u.def, u.args)));
                if mentions_param(u.args) {
                    // A generic associated constant: keep symbolic (after trying to resolve).
                    if let Ok(Some(i)) =
                        Instance::try_resolve(self.tcx, self.env(root), u.def, u.args)
                    {
                        if mentions_param(i.args)
                            || self.tcx.trait_of_assoc(i.def_id()).is_some()
                        {
                            return J::Arr(vec![s("assoc"), name]);
                        }
                    } else {
                        return J::Arr(vec![s("assoc"), name]);
                    }
                }
            }
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(pr) = u.promoted {
                if self.tcx.promoted_mir(u.def).get(pr).is_none() {
                    return J::Arr(vec![s("unk"), s("promoted")]);
                }
                // Evaluate the promoted of exactly this body (resolving would go to
                // the override when the body is a trait's provided method).
                let gid = interpret::GlobalId {
                    instance: Instance::new_raw(u.def, u.args),
                    promoted: Some(pr),
                };
                let env = if mentions_param(u.args) {
                    self.env(root)
                } else {
                    TypingEnv::fully_monomorphized()
                };
                if let Ok(v) = self.tcx.const_eval_global_id(env, gid, span) {
                    return self.cval(v, t, root, 0);
                }
                return J::Arr(vec![s("unk"), s("promoted")]);
            }
        }
        match c.eval(self.tcx, self.env(root), span) {
            Ok(v) => {
                let j = self.cval(v, t, root, 0);
                if let J::Null = name {
                    j
                } else {
                    J::Arr(vec![s("named"), name, j])
                }
            }
            Err(_) => J::Arr(vec![s("unk"), s(with_no_trimmed_paths!(format!("{c}")))]),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, root: DefId, depth: usize) -> J {
        let tcx = self.tcx;
        let unk = |why: &str| J::Arr(vec![s("unk"), s(why)]);
        if depth > 12 {
            return unk("depth");
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let Some(sc) = v.try_to_scalar_int().or_else(|| self.read_scalar(v, t, root))
                else {
                    return unk("scalar");
                };
                let size = sc.size();
                let bits = sc.to_bits(size);
                match t.kind() {
                    ty::Bool => J::Arr(vec![s("bool"), J::Bool(bits != 0)]),
                    ty::Char => J::Arr(vec![s("char"), J::Big(bits)]),
                    ty::Int(_) => J::Arr(vec![s("int"), J::Int(size.sign_extend(bits))]),
                    ty::Uint(_) => J::Arr(vec![s("int"), J::Big(bits)]),
                    _ => J::Arr(vec![s("float"), J::Big(bits), n(size.bits() as usize)]),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => match inner.kind() {
                ty::Str | ty::Slice(_) => {
                    let (alloc_id, off, meta) = match v {
                        ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, meta),
                        ConstValue::Indirect { alloc_id, offset } => {
                            // fat pointer in memory
                            let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) else {
                                return unk("mem");
                            };
                            let ps = tcx.data_layout.pointer_size();
                            let p = m.inner().read_scalar(
                                &tcx,
                                interpret::alloc_range(offset, ps),
                                true,
                            );
                            let l = m.inner().read_scalar(
                                &tcx,
                                interpret::alloc_range(offset + ps, ps),
                                false,
                            );
                            let (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) = (p, l) else {
                                return unk("fatptr");
                            };
                            let (prov, off) = p.prov_and_relative_offset();
                            (prov.alloc_id(), off.bytes(), l.to_bits(ps) as u64)
                        }
                        _ => return unk("fatref"),
                    };
                    match inner.kind() {
                        ty::Str => {
                            let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) else {
                                return unk("mem");
                            };
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                off as usize..(off + meta) as usize,
                            );
                            let b = b.iter().map(|x| n(*x as usize)).collect();
                            J::Arr(vec![s("str"), J::Arr(b)])
                        }
                        ty::Slice(e) => {
                            let es = match tcx.layout_of(self.env(root).as_query_input(*e)) {
                                Ok(l) => l.size.bytes(),
                                Err(_) => return unk("layout"),
                            };
                            let mut items = vec![];
                            for i in 0..meta {
                                let cv = ConstValue::Indirect {
                                    alloc_id,
                                    offset: rustc_abi::Size::from_bytes(off + i * es),
                                };
                                items.push(self.cval(cv, *e, root, depth + 1));
                            }
                            J::Arr(vec![s("slice"), J::Arr(items)])
                        }
                        _ => unreachable!(),
                    }
                }
                ty::Dynamic(..) => unk("dyn"),
                _ => {
                    let sc = match v {
                        ConstValue::Scalar(sc) => Some(sc),
                        ConstValue::Indirect { alloc_id, offset } => {
                            match tcx.global_alloc(alloc_id) {
                                GlobalAlloc::Memory(m) => m
                                    .inner()
                                    .read_scalar(
                                        &tcx,
                                        interpret::alloc_range(
                                            offset,
                                            tcx.data_layout.pointer_size(),
                                        ),
                                        true,
                                    )
                                    .ok(),
                                _ => None,
                            }
                        }
                        _ => None,
                    };
                    let Some(Scalar::Ptr(p, _)) = sc else { return unk("ptr") };
                    let (prov, off) = p.prov_and_relative_offset();
                    let id = prov.alloc_id();
                    match tcx.global_alloc(id) {
                        GlobalAlloc::Memory(_) => {
                            let iv = ConstValue::Indirect { alloc_id: id, offset: off };
                            let it = self.ty(*inner, root);
                            let j = self.cval(iv, *inner, root, depth + 1);
                            J::Arr(vec![s("ref"), n(it), j])
                        }
                        GlobalAlloc::Static(d) => J::Arr(vec![s("static"), s(self.path(d))]),
                        _ => unk("galloc"),
                    }
                }
            },
            ty::FnDef(..) => J::Arr(vec![s("fn")]),
            ty::FnPtr(..) => {
                let sc = match v {
                    ConstValue::Scalar(sc) => Some(sc),
                    ConstValue::Indirect { alloc_id, offset } => {
                        match tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(m) => m
                                .inner()
                                .read_scalar(
                                    &tcx,
                                    interpret::alloc_range(offset, tcx.data_layout.pointer_size()),
                                    true,
                                )
                                .ok(),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                if let Some(Scalar::Ptr(p, _)) = sc {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        let (k, has) = self.enqueue(instance, root);
                        return J::Arr(vec![s("fnptr"), s(k), J::Bool(has)]);
                    }
                }
                unk("fnptr")
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Array(e, len) = t.kind() {
                    // Fast path for byte arrays.
                    if *e == tcx.types.u8 {
                        if let (ConstValue::Indirect { alloc_id, offset }, Some(l)) =
                            (v, len.try_to_target_usize(tcx))
                        {
                            if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                                let o = offset.bytes() as usize;
                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                    o..o + l as usize,
                                );
                                let b = b.iter().map(|x| J::Arr(vec![s("int"), n(*x as usize)]));
                                return J::Arr(vec![s("arr"), J::Arr(b.collect())]);
                            }
                        }
                    }
                }
                if mentions_param(t) {
                    return unk("generic");
                }
                let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) else {
                    return unk("destructure");
                };
                let fs: Vec<J> =
                    d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, root, depth + 1)).collect();
                match t.kind() {
                    ty::Adt(..) => J::Arr(vec![
                        s("adt"),
                        n(d.variant.map_or(0, |v| v.as_usize())),
                        J::Arr(fs),
                    ]),
                    ty::Tuple(_) => J::Arr(vec![s("tuple"), J::Arr(fs)]),
                    _ => J::Arr(vec![s("arr"), J::Arr(fs)]),
                }
            }
            ty::Closure(..) => J::Arr(vec![s("zst")]),
            _ => unk("kind"),
        }
    }

    fn read_scalar(&self, v: ConstValue, t: Ty<'tcx>, root: DefId) -> Option<ty::ScalarInt> {
        let ConstValue::Indirect { alloc_id, offset } = v else { return None };
        let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) else { return None };
        let l = self.tcx.layout_of(self.env(root).as_query_input(t)).ok()?;
        match m.inner().read_scalar(&self.tcx, interpret::alloc_range(offset, l.size), false) {
            Ok(Scalar::Int(i)) => Some(i),
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, root: DefId) -> J {
        match r {
            Rvalue::Use(o, ..) => J::Arr(vec![s("use"), self.operand(o, body, root)]),
            Rvalue::Repeat(o, c) => J::Arr(vec![
                s("repeat"),
                self.operand(o, body, root),
                c.try_to_target_usize(self.tcx).map_or(J::Null, |l| J::Int(l as i128)),
            ]),
            Rvalue::Ref(_, bk, p) => J::Arr(vec![
                s("ref"),
                self.place(p, body, root),
                J::Bool(matches!(bk, BorrowKind::Mut { .. })),
            ]),
            Rvalue::RawPtr(k, p) => J::Arr(vec![
                s("ref"),
                self.place(p, body, root),
                J::Bool(matches!(k, RawPtrKind::Mut)),
            ]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, self.tcx);
                let from = self.norm(from, root);
                let from = self.ty(from, root);
                let t = self.norm(*t, root);
                let tid = self.ty(t, root);
                J::Arr(vec![
                    s("cast"),
                    s(format!("{k:?}")),
                    self.operand(o, body, root),
                    n(tid),
                    n(from),
                ])
            }
            Rvalue::BinaryOp(op, b) => {
                let lt = b.0.ty(body, self.tcx);
                let lt = self.norm(lt, root);
                let lt = self.ty(lt, root);
                J::Arr(vec![
                    s("bin"),
                    s(format!("{op:?}")),
                    self.operand(&b.0, body, root),
                    self.operand(&b.1, body, root),
                    n(lt),
                ])
            }
            Rvalue::UnaryOp(op, o) => {
                let lt = o.ty(body, self.tcx);
                let lt = self.norm(lt, root);
                let lt = self.ty(lt, root);
                J::Arr(vec![s("un"), s(format!("{op:?}")), self.operand(o, body, root), n(lt)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let t = self.norm(t, root);
                let t = self.ty(t, root);
                J::Arr(vec![s("discr"), self.place(p, body, root), n(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let t = r.ty(body, self.tcx);
                let t = self.norm(t, root);
                let tid = self.ty(t, root);
                let (kind, var, active) = match &**k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, v, _, _, f) => {
                        ("adt", v.as_usize(), f.map(|f| f.as_usize()))
                    }
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                let ops = ops.iter().map(|o| self.operand(o, body, root)).collect();
                J::Arr(vec![
                    s("agg"),
                    s(kind),
                    n(tid),
                    n(var),
                    J::Arr(ops),
                    active.map_or(J::Null, n),
                ])
            }
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(p, body, root);
                J::Arr(vec![s("use"), J::Arr(vec![s("c"), pl])])
            }
            Rvalue::Reborrow(_, m, p) => J::Arr(vec![
                s("use"),
                J::Arr(vec![s("c"), self.place(p, body, root)]),
                J::Bool(m.is_mut()),
            ]),
            other => J::Arr(vec![s("other"), s(format!("{other:?}"))]),
        }
    }

    fn body(&mut self, key: &str, inst: Instance<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def);
        let env = self.env(root);
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            EarlyBinder::bind(tcx, raw.clone()),
        ) {
            Ok(b) => b,
            Err(_) => {
                return J::Obj(vec![("error", s(format!("cannot instantiate {key}")))]);
            }
        };
        let did = inst.def_id();
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            let t = self.norm(l.ty, root);
            locals.push(n(self.ty(t, root)));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(&b.0, &body, root);
                        let rv = self.rvalue(&b.1, &body, root);
                        let line = self.span(st.source_info.span);
                        let line = match line {
                            J::Arr(v) => v[1].clone(),
                            x => x,
                        };
                        ss.push(J::Arr(vec![s("="), pl, rv, line]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place, &body, root);
                        ss.push(J::Arr(vec![s("sd"), pl, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => {
                        ss.push(J::Arr(vec![s("dead"), n(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        ss.push(J::Arr(vec![s("intr"), s(format!("{i:?}"))]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = match self.span(term.source_info.span) {
                J::Arr(v) => v[1].clone(),
                x => x,
            };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body, tcx);
                    let dt = self.norm(dt, root);
                    let dt = self.ty(dt, root);
                    let d = self.operand(discr, &body, root);
                    let ts = targets
                        .iter()
                        .map(|(v, b)| J::Arr(vec![J::Big(v), n(b.as_usize())]))
                        .collect();
                    J::Arr(vec![
                        s("switch"),
                        d,
                        J::Arr(ts),
                        n(targets.otherwise().as_usize()),
                        n(dt),
                    ])
                }
                TerminatorKind::Return => J::Arr(vec![s("ret")]),
                TerminatorKind::Unreachable => J::Arr(vec![s("unreach")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::Arr(vec![s("unwind")])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body, tcx).ty;
                    let t = self.norm(t, root);
                    let needs = t.needs_drop(tcx, env);
                    let t = self.ty(t, root);
                    let pl = self.place(place, &body, root);
                    J::Arr(vec![s("drop"), pl, n(t), n(target.as_usize()), J::Bool(needs)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, &body, root);
                    let a = args.iter().map(|a| self.operand(&a.node, &body, root)).collect();
                    let d = self.place(destination, &body, root);
                    J::Arr(vec![
                        s("call"),
                        f,
                        J::Arr(a),
                        d,
                        target.map_or(J::Null, |t| n(t.as_usize())),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, &body, root);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow neg".into(),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        AssertKind::NullPointerDereference
                        | AssertKind::NullReferenceConstructed
                        | AssertKind::MisalignedPointerDereference { .. } => "ubcheck".into(),
                        other => format!("{other:?}"),
                    };
                    J::Arr(vec![
                        s("assert"),
                        c,
                        J::Bool(*expected),
                        s(m),
                        n(target.as_usize()),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::Arr(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::Arr(vec![s("goto"), n(real_target.as_usize())])
                }
                other => J::Arr(vec![s("other"), s(format!("{other:?}"))]),
            };
            blocks.push(J::Obj(vec![("s", J::Arr(ss)), ("t", t), ("l", line)]));
        }
        let ispan = self.span(tcx.def_span(did));
        let mut names = vec![];
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() {
                    names.push(J::Arr(vec![n(p.local.as_usize()), s(vdi.name.to_string())]));
                }
            }
        }
        let raw_unsafe = did.is_local() && {
            matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn)
                && tcx.fn_sig(did).skip_binder().safety().is_unsafe()
        };
        J::Obj(vec![
            ("path", s(self.path(did))),
            ("local", J::Bool(did.is_local())),
            ("dkind", s(format!("{:?}", tcx.def_kind(did)))),
            ("item", J::Bool(matches!(inst.def, InstanceKind::Item(_)))),
            ("args", n(body.arg_count)),
            ("spread", body.spread_arg.map_or(J::Null, |l| n(l.as_usize()))),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("span", ispan),
            ("unsafe", J::Bool(raw_unsafe)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut api: Vec<J> = vec![];
        let vis = tcx.effective_visibilities(());
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_span(k.to_def_id()).lo());
        for k in keys {
            let did = k.to_def_id();
            let kind = tcx.def_kind(did);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            let (key, _) = self.enqueue(inst, did);
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            let ins: Vec<J> =
                sig.inputs().iter().map(|t| n({ let t = self.norm(*t, did); self.ty(t, did) })).collect();
            let out = { let t = self.norm(sig.output(), did); self.ty(t, did) };
            let raw_out = with_no_trimmed_paths!(format!("{}", sig.output()));
            let names: Vec<J> = tcx
                .fn_arg_idents(did)
                .iter()
                .map(|i| i.map_or(J::Null, |i| s(i.name.to_string())))
                .collect();
            let mut o = vec![
                ("path", s(self.path(did))),
                ("name", s(tcx.item_name(did).to_string())),
                ("key", s(key)),
                ("reachable", J::Bool(vis.is_reachable(k))),
                ("pub", J::Bool(tcx.visibility(did).is_public())),
                ("doc", s(self.doc(did))),
                ("span", self.span(tcx.def_span(did))),
                ("inputs", J::Arr(ins)),
                ("names", J::Arr(names)),
                ("output", n(out)),
                ("raw_output", s(raw_out)),
                ("unsafe", J::Bool(sig.safety().is_unsafe())),
                ("const", J::Bool(tcx.is_const_fn(did))),
            ];
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let self_ty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let self_ty = self.norm(self_ty, did);
                o.push(("self_ty", n(self.ty(self_ty, did))));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    o.push((
                        "trait",
                        s(with_no_trimmed_paths!(format!("{}", self.path(tr.skip_binder().def_id)))),
                    ));
                }
                let derived = tcx.get_all_attrs(imp).iter().any(|a| format!("{a:?}").contains("AutomaticallyDerived"));
                o.push(("derived", J::Bool(derived)));
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                o.push(("in_trait", s(self.path(tr))));
            }
            api.push(J::Obj(o));
        }
        // Local ADTs and consts.
        let mut consts = vec![];
        let mut impls = vec![];
        for k in tcx.hir_crate_items(()).definitions() {
            let did = k.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    self.ty(t, did);
                }
                DefKind::Const | DefKind::AssocConst => {
                    let generics_ok = !mentions_param(ty::GenericArgs::identity_for_item(tcx, did));
                    let parent_trait = tcx.trait_of_assoc(did).is_some();
                    let mut o = vec![
                        ("path", s(self.path(did))),
                        ("name", s(tcx.item_name(did).to_string())),
                        ("doc", s(self.doc(did))),
                        ("reachable", J::Bool(vis.is_reachable(k))),
                        ("span", self.span(tcx.def_span(did))),
                    ];
                    if let Some(imp) = tcx.impl_of_assoc(did) {
                        let self_ty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        let self_ty = self.norm(self_ty, did);
                        o.push(("self_ty", n(self.ty(self_ty, did))));
                    }
                    if !parent_trait {
                        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                        let t = self.norm(t, did);
                        if generics_ok {
                            if let Ok(v) = tcx.const_eval_poly(did) {
                                o.push(("value", self.cval(v, t, did, 0)));
                            }
                        }
                        o.push(("ty", n(self.ty(t, did))));
                    }
                    consts.push(J::Obj(o));
                }
                DefKind::Impl { of_trait } => {
                    let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let self_ty = self.norm(self_ty, did);
                    let st = self.ty(self_ty, did);
                    let tr = if of_trait {
                        tcx.impl_opt_trait_ref(did).map_or(J::Null, |t| {
                            s(with_no_trimmed_paths!(format!("{}", self.path(t.skip_binder().def_id))))
                        })
                    } else {
                        J::Null
                    };
                    impls.push(J::Obj(vec![
                        ("self_ty", n(st)),
                        ("trait", tr),
                        ("span", self.span(tcx.def_span(did))),
                    ]));
                }
                _ => {}
            }
        }
        let limit: usize = std::env::var("MIRDUMP_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(60000);
        let mut count = 0;
        while let Some((key, inst, root)) = self.queue.pop_front() {
            count += 1;
            if count > limit {
                eprintln!("mirdump: limit reached");
                break;
            }
            let j = self.body(&key, inst, root);
            self.fns.push((key, j));
        }
        J::Obj(vec![
            ("types", J::Arr(std::mem::take(&mut self.types))),
            ("adts", J::Map(std::mem::take(&mut self.adts))),
            ("api", J::Arr(api)),
            ("consts", J::Arr(consts)),
            ("impls", J::Arr(impls)),
            ("fns", J::Map(std::mem::take(&mut self.fns))),
        ])
    }
}

fn rustc_ast_doc(a: &rustc_attr_ir::Attribute) -> Option<String> {
    use rustc_ast::attr::AttributeExt;
    a.doc_str().map(|s| s.to_string())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
