//! Walks every instance reachable from the public functions of the crate, polymorphically, and dumps it.
use std::collections::HashMap;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use rustc_trait_selection::infer::InferCtxtExt;

use crate::json::{i, s, J};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum What<'tcx> {
    Fn(Instance<'tcx>),
    Promoted(Instance<'tcx>, Promoted),
    Const(Instance<'tcx>),
    /// Calls which cannot be resolved without knowing the type arguments.
    Open(DefId, GenericArgsRef<'tcx>),
}

type Key<'tcx> = (What<'tcx>, ty::ParamEnv<'tcx>);

struct W<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    fns: HashMap<Key<'tcx>, usize>,
    queue: Vec<(Key<'tcx>, TypingEnv<'tcx>, usize)>,
    fn_out: Vec<J>,
    tys: HashMap<(Ty<'tcx>, ty::ParamEnv<'tcx>), usize>,
    ty_out: Vec<J>,
    ty_queue: Vec<(Ty<'tcx>, TypingEnv<'tcx>, usize)>,
    native: Vec<String>,
    models: HashMap<String, DefId>,
}

pub fn dump(tcx: TyCtxt<'_>) -> J {
    with_no_trimmed_paths!(dump_(tcx))
}

fn dump_(tcx: TyCtxt<'_>) -> J {
    let native = std::env::var("MIRDUMP_NATIVE").map(|p| std::fs::read_to_string(p).expect("native list")).unwrap_or_default();
    let native = native.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();

    // lines `path of a function => its model`
    let list = std::env::var("MIRDUMP_MODELS").map(|p| std::fs::read_to_string(p).expect("list of models")).unwrap_or_default();
    let list: HashMap<&str, &str> = list.lines().filter_map(|l| l.split_once(" => ")).map(|(a, b)| (b.trim(), a.trim())).collect();
    let mut roots = vec![];
    let mut models = HashMap::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if tcx.def_kind(d) != DefKind::Fn {
            continue;
        }
        let p = tcx.def_path_str(d);
        if let Some(m) = p.strip_prefix("models::") {
            models.insert(list.get(m).map_or_else(|| m.replace("__", "::"), |p| p.to_string()), d);
        } else if p.starts_with("roots") || p.starts_with("markers") {
            roots.push((p, d));
        }
    }
    roots.sort_by(|a, b| a.0.cmp(&b.0));

    let Some((_, first)) = roots.first() else { panic!("no roots") };
    let mut w = W {
        tcx,
        env: TypingEnv::post_analysis(tcx, *first),
        fns: HashMap::new(),
        queue: vec![],
        fn_out: vec![],
        tys: HashMap::new(),
        ty_out: vec![],
        ty_queue: vec![],
        native,
        models,
    };

    let mut root_out = vec![];
    let mut marker_out = vec![];
    for (p, d) in roots {
        w.env = TypingEnv::post_analysis(tcx, d);
        if p.starts_with("markers") {
            let m = w.marker(d);
            marker_out.push((p, m));
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let id = w.fn_id(What::Fn(Instance::new_raw(d, args)));
        let mut traits = vec![];
        let copy = tcx.lang_items().copy_trait().unwrap();
        for pr in w.env.param_env.caller_bounds() {
            traits.push(s(format!("{pr}")));
        }
        let is_copy = args.types().next().map(|t| {
            let (inf, pe) = tcx.infer_ctxt().build_with_typing_env(w.env);
            inf.type_implements_trait(copy, [t], pe).must_apply_modulo_regions()
        });
        root_out.push((p, obj! {"fn": i(id as i128), "bounds": J::A(traits), "copy": J::B(is_copy == Some(true))}));
        w.drain();
    }
    w.drain();
    obj! {
        "roots": J::O(root_out),
        "markers": J::O(marker_out),
        "fns": J::A(w.fn_out),
        "types": J::A(w.ty_out),
    }
}

impl<'tcx> W<'tcx> {
    fn drain(&mut self) {
        loop {
            if let Some((k, env, id)) = self.queue.pop() {
                self.env = env;
                let j = self.emit_fn(k.0);
                self.fn_out[id] = j;
            } else if let Some((t, env, id)) = self.ty_queue.pop() {
                self.env = env;
                let j = self.emit_ty(t);
                self.ty_out[id] = j;
            } else {
                break;
            }
        }
    }

    /// For each argument type: which marker traits it satisfies in the environment of the function.
    fn marker(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send).expect("Send");
        let sync = tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::Sync, DUMMY_SP);
        let mut out = vec![];
        for t in sig.inputs() {
            let mut r = vec![];
            for (n, tr) in [("Send", send), ("Sync", sync)] {
                let (inf, pe) = tcx.infer_ctxt().build_with_typing_env(self.env);
                let t = tcx.erase_and_anonymize_regions(*t);
                let e = inf.type_implements_trait(tr, [t], pe);
                r.push((n.to_string(), J::B(e.may_apply())));
                r.push((format!("{n}_must"), J::B(e.must_apply_modulo_regions())));
            }
            // Where the markers of the type are granted by hand.
            let mut im = vec![];
            for tr in [send, sync] {
                for d in tcx.non_blanket_impls_for_ty(tr, *t) {
                    let sp = self.span(tcx.def_span(d));
                    im.push(sp);
                }
            }
            r.push(("impls".into(), J::A(im)));
            r.push(("ty".into(), s(format!("{t}"))));
            out.push(J::O(r));
        }
        J::A(out)
    }

    fn fn_id(&mut self, w: What<'tcx>) -> usize {
        let k = (w, self.env.param_env);
        if let Some(x) = self.fns.get(&k) {
            return *x;
        }
        let id = self.fn_out.len();
        self.fn_out.push(J::N);
        self.fns.insert(k, id);
        self.queue.push((k, self.env, id));
        id
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        i(self.ty_id(t) as i128)
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let k = (t, self.env.param_env);
        if let Some(x) = self.tys.get(&k) {
            return *x;
        }
        let id = self.ty_out.len();
        self.ty_out.push(J::N);
        self.tys.insert(k, id);
        self.ty_queue.push((t, self.env, id));
        id
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn tcon(&mut self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => obj! {"k": s("param"), "name": s(p.name.as_str())},
            _ => match c.try_to_target_usize(self.tcx) {
                Some(v) => obj! {"k": s("int"), "v": s(v.to_string())},
                None => obj! {"k": s("opaque"), "s": s(format!("{c}"))},
            },
        }
    }

    fn emit_ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let str_ = s(format!("{t}"));
        let mut o: Vec<(String, J)> = vec![("str".into(), str_)];
        let mut put = |k: &str, v: J| o.push((k.into(), v));
        match *t.kind() {
            ty::Bool => put("k", s("bool")),
            ty::Char => put("k", s("char")),
            ty::Int(x) => {
                put("k", s("int"));
                put("signed", J::B(true));
                put("bits", i(x.bit_width().unwrap_or(64) as i128));
            }
            ty::Uint(x) => {
                put("k", s("int"));
                put("signed", J::B(false));
                put("bits", i(x.bit_width().unwrap_or(64) as i128));
            }
            ty::Float(_) => put("k", s("float")),
            ty::Never => put("k", s("never")),
            ty::Str => put("k", s("str")),
            ty::Param(p) => {
                put("k", s("param"));
                put("name", s(p.name.as_str()));
            }
            ty::Tuple(l) => {
                put("k", s("tuple"));
                let v = l.iter().map(|x| self.ty(x)).collect();
                put("elts", J::A(v));
            }
            ty::Array(e, n) => {
                put("k", s("array"));
                put("elt", self.ty(e));
                put("len", self.tcon(n));
            }
            ty::Slice(e) => {
                put("k", s("slice"));
                put("elt", self.ty(e));
            }
            ty::Pat(b, _) => {
                put("k", s("pat"));
                put("base", self.ty(b));
            }
            ty::RawPtr(e, m) => {
                put("k", s("ptr"));
                put("to", self.ty(e));
                put("mut", J::B(m.is_mut()));
            }
            ty::Ref(_, e, m) => {
                put("k", s("ref"));
                put("to", self.ty(e));
                put("mut", J::B(m.is_mut()));
            }
            ty::FnPtr(..) => put("k", s("fnptr")),
            ty::FnDef(d, a) => {
                put("k", s("fndef"));
                let a = a.skip_binder();
                put("fn", self.callee(d, a));
            }
            ty::Closure(d, a) => {
                put("k", s("closure"));
                put("path", s(tcx.def_path_str(d)));
                let v = a.as_closure().upvar_tys().iter().map(|x| { let x = self.norm(x); self.ty(x) }).collect();
                put("elts", J::A(v));
            }
            ty::Dynamic(..) => put("k", s("dyn")),
            ty::Adt(def, args) => {
                put("k", s("adt"));
                put("path", s(tcx.def_path_str(def.did())));
                put("crate", s(tcx.crate_name(def.did().krate).as_str()));
                put("args", J::A(args.types().map(|x| self.ty(x)).collect()));
                put("cargs", J::A(args.consts().map(|x| self.tcon(x)).collect()));
                put("enum", J::B(def.is_enum()));
                put("union", J::B(def.is_union()));
                put("box", J::B(def.is_box()));
                put("transparent", J::B(def.repr().transparent()));
                put("mandrop", J::B(def.is_manually_drop()));
                put("phantom", J::B(def.is_phantom_data()));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = self.norm(ft);
                        fs.push(obj! {"name": s(f.name.as_str()), "ty": self.ty(ft)});
                    }
                    let discr = if def.is_enum() { s(def.discriminant_for_variant(tcx, vi).val.to_string()) } else { s("0") };
                    vs.push(obj! {"name": s(v.name.as_str()), "discr": discr, "fields": J::A(fs)});
                }
                put("variants", J::A(vs));
                if tcx.adt_destructor(def.did()).is_some() && !def.is_manually_drop() {
                    let tr = tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::Drop, DUMMY_SP);
                    let m = tcx.associated_item_def_ids(tr)[0];
                    let a = tcx.mk_args(&[t.into()]);
                    let c = self.callee(m, a);
                    put("drop", c);
                } else {
                    put("drop", J::N);
                }
            }
            _ => put("k", s("other")),
        }
        let nd = t.needs_drop(tcx, self.env);
        o.push(("needs_drop".into(), J::B(nd)));
        J::O(o)
    }

    /// Resolves a callee; what cannot be resolved stays open.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        // Models of provided methods of core traits.
        let p = tcx.def_path_str(d);
        if let Some(m) = self.models.get(&p).copied() {
            let n = tcx.generics_of(m).count();
            if n == args.len() {
                let args = tcx.erase_and_anonymize_regions(args);
                return i(self.fn_id(What::Fn(Instance::new_raw(m, args))) as i128);
            }
        }
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        let inst = match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => Some(inst),
            _ => self.general(d, args),
        };
        let w = match inst {
            Some(inst) => {
                // A provided method may resolve to itself; an implementation may have a model, too.
                let m = match inst.def {
                    InstanceKind::Item(d2) => self.models.get(&tcx.def_path_str(d2)).copied(),
                    _ => None,
                };
                match m {
                    Some(m) if tcx.generics_of(m).count() == inst.args.len() => What::Fn(Instance::new_raw(m, inst.args)),
                    _ => What::Fn(inst),
                }
            }
            _ => What::Open(d, args),
        };
        i(self.fn_id(w) as i128)
    }

    /// Where the library specialises implementations for some item types: the general one, which has
    /// to behave in the same way.
    fn general(&self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(d)?;
        if !matches!(tcx.crate_name(tr.krate).as_str(), "core" | "alloc" | "std") {
            return None;
        }
        let tref = ty::TraitRef::from_assoc(tcx, tr, args);
        let Ok(rustc_middle::traits::ImplSource::UserDefined(data)) = tcx.codegen_select_candidate(self.env.as_query_input(tref)) else {
            return None;
        };
        if !matches!(tcx.crate_name(data.impl_def_id.krate).as_str(), "core" | "alloc" | "std") {
            return None;
        }
        let leaf = tcx.trait_def(tr).ancestors(tcx, data.impl_def_id).ok()?.leaf_def(tcx, d)?;
        let (inf, pe) = tcx.infer_ctxt().build_with_typing_env(self.env);
        let args = args.rebase_onto(tcx, tr, data.args);
        let args = rustc_trait_selection::traits::translate_args(&inf, pe, data.impl_def_id, args, leaf.defining_node);
        let args = tcx.erase_and_anonymize_regions(args);
        if !leaf.item.defaultness(tcx).has_value() || !tcx.check_args_compatible(leaf.item.def_id, args) {
            return None;
        }
        Some(Instance::new_raw(leaf.item.def_id, args))
    }

    fn is_native(&self, names: &[String]) -> bool {
        self.native.iter().any(|n| match n.strip_suffix('*') {
            Some(p) => names.iter().any(|x| x.starts_with(p)),
            None => names.iter().any(|x| x == n),
        })
    }

    fn emit_fn(&mut self, w: What<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(String, J)> = vec![];
        let (inst, body) = match w {
            What::Open(d, args) => {
                o.push(("kind".into(), s("open")));
                self.head(&mut o, d, args);
                return J::O(o);
            }
            What::Promoted(inst, p) => {
                o.push(("kind".into(), s("promoted")));
                o.push(("path".into(), s(format!("promoted of {}", tcx.def_path_str(inst.def_id())))));
                (inst, &tcx.promoted_mir(inst.def_id())[p])
            }
            What::Const(inst) => {
                o.push(("kind".into(), s("const")));
                o.push(("path".into(), s(tcx.def_path_str(inst.def_id()))));
                o.push(("args".into(), J::A(inst.args.types().map(|x| self.ty(x)).collect())));
                if !tcx.is_mir_available(inst.def_id()) && tcx.def_kind(inst.def_id()) != DefKind::AnonConst {
                    o.push(("leaf".into(), s("no mir")));
                    return J::O(o);
                }
                (inst, tcx.mir_for_ctfe(inst.def_id()))
            }
            What::Fn(inst) => {
                let d = inst.def_id();
                let names = self.head(&mut o, d, inst.args);
                match inst.def {
                    InstanceKind::Item(_) => o.push(("kind".into(), s("item"))),
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => {
                        o.push(("kind".into(), s("intrinsic")));
                        return J::O(o);
                    }
                    InstanceKind::Virtual(..) => {
                        o.push(("kind".into(), s("virtual")));
                        return J::O(o);
                    }
                    InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                        o.push(("kind".into(), s("closure_once")));
                        // the closure itself is the first generic argument's type
                        if let ty::Closure(d2, a2) = *inst.args.type_at(0).kind() {
                            debug_assert_eq!(d2, closure);
                            let id = self.fn_id(What::Fn(Instance::new_raw(d2, a2)));
                            o.push(("target".into(), i(id as i128)));
                        } else {
                            let id = self.fn_id(What::Fn(Instance::new_raw(closure, inst.args)));
                            o.push(("target".into(), i(id as i128)));
                        }
                        return J::O(o);
                    }
                    InstanceKind::Shim(ShimKind::FnPtr(_, t)) => {
                        o.push(("kind".into(), s("fnptr_shim")));
                        if let ty::FnDef(d, a) = *t.kind() {
                            let c = self.callee(d, a.skip_binder());
                            o.push(("target".into(), c));
                        }
                        return J::O(o);
                    }
                    InstanceKind::Shim(ShimKind::Reify(d, _)) => {
                        o.push(("kind".into(), s("reify")));
                        let id = self.fn_id(What::Fn(Instance { def: InstanceKind::Item(d), args: inst.args }));
                        o.push(("target".into(), i(id as i128)));
                        return J::O(o);
                    }
                    InstanceKind::Shim(ShimKind::DropGlue(_, _)) => {
                        o.push(("kind".into(), s("drop_glue")));
                        return J::O(o);
                    }
                    InstanceKind::Shim(ShimKind::Clone(_, t)) => {
                        o.push(("kind".into(), s("clone_shim")));
                        let t = self.ty(t);
                        o.push(("ty".into(), t));
                        return J::O(o);
                    }
                    InstanceKind::Shim(_) => {
                        o.push(("kind".into(), s("shim")));
                        o.push(("leaf".into(), s(format!("{:?}", inst.def))));
                        return J::O(o);
                    }
                }
                if self.is_native(&names) {
                    o.push(("leaf".into(), s("native")));
                    return J::O(o);
                }
                if tcx.is_foreign_item(d) || !tcx.is_mir_available(d) {
                    o.push(("leaf".into(), s("no mir")));
                    return J::O(o);
                }
                if self.diverges(d) {
                    o.push(("leaf".into(), s("diverges")));
                    return J::O(o);
                }
                (inst, tcx.instance_mir(inst.def))
            }
        };
        let body: Body<'tcx> = match tcx.try_instantiate_and_normalize_erasing_regions(inst.args, self.env, EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => {
                o.push(("leaf".into(), s("cannot normalise")));
                return J::O(o);
            }
        };
        o.push(("argc".into(), i(body.arg_count as i128)));
        o.push(("spread".into(), body.spread_arg.map_or(J::N, |l| i(l.as_usize() as i128))));
        o.push(("span".into(), self.span(body.span)));
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                arr![t, names.get(&l.as_usize()).map_or(J::N, |n| s(n.clone()))]
            })
            .collect();
        o.push(("locals".into(), J::A(locals)));
        let cx = Cx { inst, body: &body };
        let blocks = body
            .basic_blocks
            .iter()
            .map(|b| {
                let mut st = vec![];
                for x in &b.statements {
                    if let Some(j) = self.stmt(&cx, x) {
                        st.push(j);
                    }
                }
                obj! {"s": J::A(st), "t": self.term(&cx, b.terminator()), "cleanup": J::B(b.is_cleanup)}
            })
            .collect();
        o.push(("blocks".into(), J::A(blocks)));
        J::O(o)
    }

    fn diverges(&self, d: DefId) -> bool {
        if self.tcx.is_closure_like(d) {
            return false;
        }
        let sig = self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        sig.output().skip_binder().is_never()
    }

    fn head(&mut self, o: &mut Vec<(String, J)>, d: DefId, args: GenericArgsRef<'tcx>) -> Vec<String> {
        let tcx = self.tcx;
        let path = tcx.def_path_str(d);
        let mut names = vec![path.clone()];
        o.push(("path".into(), s(path)));
        o.push(("crate".into(), s(tcx.crate_name(d.krate).as_str())));
        o.push(("args".into(), J::A(args.types().map(|x| self.ty(x)).collect())));
        o.push(("cargs".into(), J::A(args.consts().map(|x| self.tcon(x)).collect())));
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        o.push(("full".into(), s(full)));
        if !tcx.is_closure_like(d) {
            let tr = match tcx.trait_of_assoc(d) {
                Some(_) => Some(d),
                None => tcx.impl_of_assoc(d).and_then(|_| tcx.trait_item_of(d)),
            };
            if let Some(t) = tr {
                let p = tcx.def_path_str(t);
                names.push(p.clone());
                o.push(("trait".into(), s(p)));
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate(tcx, args.truncate_to(tcx, tcx.generics_of(im))).skip_norm_wip();
                let st = self.norm(st);
                let st = self.ty(st);
                o.push(("self".into(), st));
            }
        } else {
            o.push(("closure".into(), J::B(true)));
        }
        o.push(("def_span".into(), self.span(tcx.def_span(d))));
        names
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return s("?");
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }

    fn place(&mut self, cx: &Cx<'_, 'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(cx.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => arr![s("d")],
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    arr![s("f"), i(f.as_usize() as i128), t]
                }
                ProjectionElem::Index(l) => arr![s("i"), i(l.as_usize() as i128)],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr![s("ci"), i(offset), i(min_length), J::B(from_end)]
                }
                ProjectionElem::Subslice { from, to, from_end } => arr![s("ss"), i(from), i(to), J::B(from_end)],
                ProjectionElem::Downcast(_, v) => arr![s("v"), i(v.as_usize() as i128)],
                _ => arr![s("?")],
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        arr![i(p.local.as_usize() as i128), J::A(pr), t]
    }

    fn operand(&mut self, cx: &Cx<'_, 'tcx>, x: &Operand<'tcx>) -> J {
        match x {
            Operand::Copy(p) => arr![s("c"), self.place(cx, p)],
            Operand::Move(p) => arr![s("m"), self.place(cx, p)],
            Operand::Constant(c) => arr![s("k"), self.konst(cx, c.const_)],
            Operand::RuntimeChecks(r) => arr![s("rc"), s(format!("{r:?}"))],
        }
    }

    fn konst(&mut self, cx: &Cx<'_, 'tcx>, c: Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        match c {
            Const::Ty(_, k) => {
                let j = self.tcon(k);
                let t = self.ty(t);
                return add(j, "ty", t);
            }
            Const::Val(v, t) => return self.cval(v, t, 0),
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let _ = cx;
                    let id = self.fn_id(What::Promoted(Instance::new_raw(u.def, u.args), p));
                    let t = self.ty(t);
                    return obj! {"k": s("cfn"), "fn": i(id as i128), "ty": t};
                }
                if !c.has_non_region_param() {
                    if let Ok(v) = c.eval(tcx, self.env, DUMMY_SP) {
                        return self.cval(v, t, 0);
                    }
                }
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, u.def, u.args) {
                    let id = self.fn_id(What::Const(inst));
                    let t = self.ty(t);
                    return obj! {"k": s("cfn"), "fn": i(id as i128), "ty": t};
                }
            }
        }
        let t = self.ty(t);
        obj! {"k": s("opaque"), "s": s(format!("{c}")), "ty": t}
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tj = self.ty(t);
        if depth > 6 {
            return obj! {"k": s("opaque"), "s": s("deep"), "ty": tj};
        }
        if let ty::FnDef(d, a) = *t.kind() {
            let c = self.callee(d, a.skip_binder());
            return obj! {"k": s("fn"), "fn": c, "ty": tj};
        }
        match v {
            ConstValue::ZeroSized if !matches!(t.kind(), ty::Adt(..) | ty::Array(..) | ty::Tuple(..)) => return obj! {"k": s("zst"), "ty": tj},
            ConstValue::Scalar(Scalar::Int(x)) if t.is_integral() || t.is_bool() || t.is_char() || t.is_any_ptr() || matches!(t.kind(), ty::Pat(..)) => {
                let size = x.size();
                let val = if matches!(t.kind(), ty::Int(_)) { x.to_int(size).to_string() } else { x.to_bits(size).to_string() };
                return obj! {"k": s("int"), "v": s(val), "ty": tj};
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Function { instance }) => {
                        let id = self.fn_id(What::Fn(instance));
                        return obj! {"k": s("fn"), "fn": i(id as i128), "ty": tj};
                    }
                    Some(GlobalAlloc::Memory(_)) => {
                        if let Some(inner) = t.builtin_deref(true) {
                            if inner.is_sized(tcx, self.env) {
                                let j = self.cval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, inner, depth + 1);
                                return obj! {"k": s("ref"), "to": j, "ty": tj};
                            }
                        }
                    }
                    Some(GlobalAlloc::Static(d)) => {
                        return obj! {"k": s("static"), "path": s(tcx.def_path_str(d)), "ty": tj};
                    }
                    _ => {}
                }
            }
            ConstValue::Slice { meta, .. } => {
                return obj! {"k": s("strlit"), "len": i(meta as i128), "ty": tj};
            }
            _ => {}
        }
        if let ConstValue::Indirect { alloc_id, offset } = v {
            // scalars behind an indirection
            if t.is_integral() || t.is_bool() || t.is_char() {
                if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) {
                    let m = m.inner();
                    let size = tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                    if let Ok(sc) = m.read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, size), false) {
                        return self.cval(ConstValue::Scalar(sc), t, depth + 1);
                    }
                }
            }
            if let ty::Ref(_, inner, _) | ty::RawPtr(inner, _) = t.kind() {
                if inner.is_str() || inner.is_slice() {
                    return obj! {"k": s("strlit"), "len": i(0), "ty": tj};
                }
            }
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) && !t.has_param() {
            let union = matches!(t.kind(), ty::Adt(a, _) if a.is_union());
            if !union {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        fs.push(self.cval(*fv, *ft, depth + 1));
                    }
                    let var = d.variant.map_or(J::N, |v| i(v.as_usize() as i128));
                    return obj! {"k": s("agg"), "variant": var, "fields": J::A(fs), "ty": tj};
                }
            }
        }
        if matches!(v, ConstValue::ZeroSized) {
            return obj! {"k": s("zst"), "ty": tj};
        }
        obj! {"k": s("opaque"), "s": s(format!("{v:?}")), "ty": tj}
    }

    fn stmt(&mut self, cx: &Cx<'_, 'tcx>, st: &Statement<'tcx>) -> Option<J> {
        let ln = self.span(st.source_info.span);
        Some(match &st.kind {
            StatementKind::Assign(b) => {
                let p = self.place(cx, &b.0);
                let r = self.rvalue(cx, &b.1);
                arr![s("="), p, r, ln]
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                arr![s("sd"), self.place(cx, place), i(variant_index.as_usize() as i128), ln]
            }
            StatementKind::Intrinsic(b) => match &**b {
                NonDivergingIntrinsic::Assume(x) => arr![s("assume"), self.operand(cx, x), ln],
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    arr![s("copy"), self.operand(cx, &c.src), self.operand(cx, &c.dst), self.operand(cx, &c.count), ln]
                }
            },
            StatementKind::StorageDead(l) => arr![s("dead"), i(l.as_usize() as i128)],
            StatementKind::StorageLive(l) => arr![s("live"), i(l.as_usize() as i128)],
            _ => return None,
        })
    }

    fn rvalue(&mut self, cx: &Cx<'_, 'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(x, _) => arr![s("use"), self.operand(cx, x)],
            Rvalue::Repeat(x, n) => arr![s("repeat"), self.operand(cx, x), self.tcon(*n)],
            Rvalue::Ref(_, k, p) => arr![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(cx, p)],
            Rvalue::RawPtr(k, p) => arr![s("raw"), J::B(matches!(k, RawPtrKind::Mut)), self.place(cx, p)],
            Rvalue::Reborrow(_, m, p) => arr![s("use"), arr![s("c"), self.place(cx, p)], J::B(m.is_mut())],
            Rvalue::Cast(k, x, t) => {
                // A function turned into a pointer is reachable.
                let ks = match k {
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_), _) => "reify",
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_), _) => "closure_fnptr",
                    CastKind::PointerCoercion(PointerCoercion::Unsize, _) => "unsize",
                    CastKind::PointerCoercion(..) => "ptr",
                    CastKind::IntToInt => "int",
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr => "ptr",
                    CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => "transmute",
                    CastKind::PointerExposeProvenance => "expose",
                    CastKind::PointerWithExposedProvenance => "unexpose",
                    _ => "other",
                };
                let xt = x.ty(&cx.body.local_decls, self.tcx);
                let mut v = vec![s("cast"), s(ks), self.operand(cx, x), self.ty(*t), self.ty(xt)];
                if ks == "closure_fnptr" {
                    if let ty::Closure(d, a) = *xt.kind() {
                        let inst = Instance::resolve_closure(self.tcx, d, a, ty::ClosureKind::FnOnce);
                        let id = self.fn_id(What::Fn(inst));
                        v.push(i(id as i128));
                    }
                }
                J::A(v)
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&cx.body.local_decls, self.tcx);
                arr![s("bin"), s(format!("{op:?}")), self.operand(cx, &b.0), self.operand(cx, &b.1), self.ty(t)]
            }
            Rvalue::UnaryOp(op, x) => {
                let t = x.ty(&cx.body.local_decls, self.tcx);
                arr![s("un"), s(format!("{op:?}")), self.operand(cx, x), self.ty(t)]
            }
            Rvalue::Discriminant(p) => arr![s("discr"), self.place(cx, p)],
            Rvalue::CopyForDeref(p) => arr![s("use"), arr![s("c"), self.place(cx, p)]],
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|x| self.operand(cx, x)).collect();
                let t = r.ty(&cx.body.local_decls, self.tcx);
                let (ks, var, field) = match **k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, v, _, _, f) => ("adt", v.as_usize(), f),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                arr![s("agg"), s(ks), i(var as i128), J::A(v), self.ty(t), field.map_or(J::N, |f| i(f.as_usize() as i128))]
            }
            _ => arr![s("?"), s(format!("{r:?}"))],
        }
    }

    fn term(&mut self, cx: &Cx<'_, 'tcx>, t: &Terminator<'tcx>) -> J {
        let ln = self.span(t.source_info.span);
        let b = |x: BasicBlock| i(x.as_usize() as i128);
        let unw = |u: &UnwindAction| match u {
            UnwindAction::Cleanup(x) => b(*x),
            UnwindAction::Continue => i(-1),
            _ => i(-2),
        };
        match &t.kind {
            TerminatorKind::Goto { target, .. } => arr![s("goto"), b(*target)],
            TerminatorKind::FalseEdge { real_target, .. } => arr![s("goto"), b(*real_target)],
            TerminatorKind::FalseUnwind { real_target, .. } => arr![s("goto"), b(*real_target)],
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&cx.body.local_decls, self.tcx);
                let v = targets.iter().map(|(v, x)| arr![s(v.to_string()), b(x)]).collect();
                arr![s("switch"), self.operand(cx, discr), self.ty(ty), J::A(v), b(targets.otherwise()), ln]
            }
            TerminatorKind::Return => arr![s("return")],
            TerminatorKind::Unreachable => arr![s("unreachable"), ln],
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => arr![s("resume")],
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let pt = place.ty(&cx.body.local_decls, self.tcx).ty;
                arr![s("drop"), self.place(cx, place), self.ty(pt), b(*target), ln, unw(unwind)]
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let k = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(..) => "overflow",
                    AssertKind::OverflowNeg(..) => "overflow",
                    AssertKind::DivisionByZero(..) => "div0",
                    AssertKind::RemainderByZero(..) => "rem0",
                    _ => "other",
                };
                arr![s("assert"), self.operand(cx, cond), J::B(*expected), s(k), b(*target), ln]
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = match func.const_fn_def() {
                    Some((d, a)) => self.callee(d, a),
                    None => self.operand(cx, func),
                };
                let a = args.iter().map(|x| self.operand(cx, &x.node)).collect();
                let at = args.iter().map(|x| { let t = x.node.ty(&cx.body.local_decls, self.tcx); self.ty(t) }).collect();
                arr![s("call"), f, J::A(a), self.place(cx, destination), target.map_or(J::N, b), ln, J::A(at), unw(unwind)]
            }
            _ => arr![s("?"), s(format!("{:?}", t.kind))],
        }
    }
}

struct Cx<'a, 'tcx> {
    #[allow(dead_code)]
    inst: Instance<'tcx>,
    body: &'a Body<'tcx>,
}

fn add(j: J, k: &str, v: J) -> J {
    match j {
        J::O(mut o) => {
            o.push((k.to_string(), v));
            J::O(o)
        }
        j => j,
    }
}
