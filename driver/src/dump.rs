use crate::json::J;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::TypeVisitableExt;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

macro_rules! full {
    ($e:expr) => {
        with_resolve_crate_name!(with_no_trimmed_paths!(with_no_visible_paths!($e)))
    };
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyq: Vec<Ty<'tcx>>,
    /// Nesting of the iterator adapters through which the current item was reached.
    nest: usize,
    tynest: Vec<usize>,
    seen: HashSet<Instance<'tcx>>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    statics: HashSet<DefId>,
    allow: Vec<String>,
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let allow = std::env::var("PROCSTAR_FACTS_ALLOW").unwrap_or_default();
    let mut d = D {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        tys: HashMap::new(),
        tyq: Vec::new(),
        nest: 0,
        tynest: Vec::new(),
        seen: HashSet::new(),
        queue: VecDeque::new(),
        statics: HashSet::new(),
        allow: allow.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    };
    let j = d.run();
    let mut s = String::new();
    j.write(&mut s);
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, s).expect("write facts");
    std::fs::rename(&tmp, out).expect("rename facts");
}

impl<'tcx> D<'tcx> {
    fn path(&self, def: DefId) -> String {
        full!(self.tcx.def_path_str(def))
    }

    fn key(&self, i: Instance<'tcx>) -> String {
        full!(match i.def {
            InstanceKind::Item(d) | InstanceKind::Intrinsic(d) | InstanceKind::LlvmIntrinsic(d) =>
                self.tcx.def_path_str_with_args(d, i.args),
            InstanceKind::Virtual(d, _) => format!("virtual!{}", self.tcx.def_path_str_with_args(d, i.args)),
            _ => format!("{}", i),
        })
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut roots = Vec::new();
        let mut items = Vec::new();
        for def in tcx.mir_keys(()).iter().copied() {
            let did = def.to_def_id();
            let kind = tcx.def_kind(did);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                if let DefKind::Static { .. } = kind {
                    items.push(J::Obj(vec![
                        ("path", J::s(self.path(did))),
                        ("kind", J::s("static")),
                    ]));
                }
                continue;
            }
            let generics = tcx.generics_of(did);
            let mono = !generics.requires_monomorphization(tcx);
            let (file, line) = self.loc(tcx.def_span(did));
            items.push(J::Obj(vec![
                ("path", J::s(self.path(did))),
                ("kind", J::s("fn")),
                ("mono", J::Bool(mono)),
                ("vis", J::s(format!("{:?}", tcx.visibility(did)))),
                ("async", J::Bool(tcx.asyncness(did).is_async())),
                ("file", J::s(file)),
                ("line", J::i(line)),
                (
                    "args",
                    J::Arr(
                        tcx.fn_arg_idents(did)
                            .iter()
                            .map(|i| i.map_or(J::Null, |i| J::s(i.name.to_string())))
                            .collect(),
                    ),
                ),
            ]));
            if mono {
                let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => unreachable!(),
                });
                let i = Instance::new_raw(did, args);
                roots.push(i);
            } else if self.scalar_visitor(did) {
                // What a deserializer makes of a scalar does not depend on the type of its error.
                let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ty::GenericParamDefKind::Type { .. } => tcx.types.unit.into(),
                    _ => unreachable!(),
                });
                roots.push(Instance::new_raw(did, args));
            }
        }
        for r in roots {
            self.enqueue(r, 0);
        }
        let mut fns = Vec::new();
        let mut types = Vec::new();
        // Dumping a function may reach types, and a type functions.
        loop {
            if let Some((i, depth)) = self.queue.pop_front() {
                self.nest = depth;
                if let Some(j) = self.dump_fn(i, depth) {
                    fns.push((self.key(i), j));
                }
            } else if types.len() < self.tyq.len() {
                let t = self.tyq[types.len()];
                self.nest = self.tynest[types.len()];
                types.push(self.dump_ty(t));
            } else {
                break;
            }
        }
        // Local ADTs, with their serde attributes.
        let mut adts = Vec::new();
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                continue;
            }
            let adt = tcx.adt_def(did);
            let variants = adt
                .variants()
                .iter()
                .map(|v| {
                    let fields = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = full!(format!("{}", tcx.type_of(f.did).instantiate_identity().skip_norm_wip()));
                            J::Obj(vec![
                                ("name", J::s(f.name.to_string())),
                                ("ty", J::s(t)),
                                ("serde", self.serde(f.did)),
                            ])
                        })
                        .collect();
                    J::Obj(vec![
                        ("name", J::s(v.name.to_string())),
                        ("ctor", J::s(format!("{:?}", v.ctor_kind()))),
                        ("fields", J::Arr(fields)),
                        ("serde", if adt.is_enum() { self.serde(v.def_id) } else { J::Null }),
                    ])
                })
                .collect();
            adts.push(J::Obj(vec![
                ("path", J::s(self.path(did))),
                ("enum", J::Bool(adt.is_enum())),
                ("variants", J::Arr(variants)),
                ("serde", self.serde(did)),
            ]));
        }
        // impls of serde traits
        let mut impls = Vec::new();
        for (tr, ims) in tcx.all_local_trait_impls(()) {
            let trn = self.path(*tr);
            for im in ims {
                let st = full!(format!("{}", tcx.type_of(*im).instantiate_identity().skip_norm_wip()));
                let auto = tcx.def_span(*im).in_derive_expansion();
                impls.push(J::Obj(vec![
                    ("trait", J::s(trn.clone())),
                    ("self", J::s(st)),
                    ("derived", J::Bool(auto)),
                ]));
            }
        }
        J::Obj(vec![
            ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("items", J::Arr(items)),
            ("adts", J::Arr(adts)),
            ("impls", J::Arr(impls)),
            ("types", J::Arr(types)),
            ("fns", J::Map(fns)),
        ])
    }

    fn serde(&self, def: DefId) -> J {
        let Some(local) = def.as_local() else { return J::Null };
        let hid = self.tcx.local_def_id_to_hir_id(local);
        let mut out = Vec::new();
        for a in self.tcx.hir_attrs(hid) {
            if let rustc_attr_ir::Attribute::DeriveHelper(item) = a {
                let name = item.path.segments.iter().map(|s| s.as_str().to_string()).collect::<Vec<_>>().join("::");
                if name != "serde" && name != "dbg" {
                    continue;
                }
                use rustc_ast::attr::AttributeExt;
                if let Some(l) = a.meta_item_list() {
                    for m in l {
                        let k = m.name().map(|s| s.to_string()).unwrap_or_default();
                        let v = m.value_str().map_or(J::Null, |s| J::s(s.to_string()));
                        out.push(J::Arr(vec![J::s(name.clone()), J::s(k), v]));
                    }
                }
            }
        }
        J::Arr(out)
    }

    fn loc(&self, span: Span) -> (String, usize) {
        let sp = span.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return (String::new(), 0);
        }
        let l = sm.lookup_char_pos(sp.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
    }

    fn allowed(&self, def: DefId) -> bool {
        if def.is_local() || self.tcx.crate_name(def.krate).as_str() == "procstar" {
            return true;
        }
        let p = self.path(def);
        let p2 = p.trim_start_matches('<');
        self.allow.iter().any(|a| p.starts_with(a.as_str()) || p2.starts_with(a.as_str()))
    }

    fn enqueue(&mut self, i: Instance<'tcx>, depth: usize) -> bool {
        if self.seen.contains(&i) {
            return true;
        }
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Item(d) => {
                if tcx.is_foreign_item(d) || !self.allowed(d) || !tcx.is_mir_available(d) {
                    return false;
                }
                if !matches!(
                    tcx.def_kind(d),
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody
                ) {
                    return false;
                }
            }
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => {
                return false
            }
            InstanceKind::Shim(k) => match k {
                ty::ShimKind::ClosureOnce { closure, .. } => {
                    if !self.allowed(closure) {
                        return false;
                    }
                }
                ty::ShimKind::DropGlue(_, Some(t)) => {
                    if !self.interesting_drop(t) {
                        return false;
                    }
                }
                ty::ShimKind::FnPtr(..) => {}
                _ => return false,
            },
        }
        if depth > 3 {
            return false;
        }
        self.seen.insert(i);
        self.queue.push_back((i, depth));
        true
    }

    /// A hand-written visitor method for a scalar: generic in its error only.
    fn scalar_visitor(&self, did: DefId) -> bool {
        const NAMES: [&str; 8] =
            ["visit_bool", "visit_i64", "visit_u64", "visit_f64", "visit_str", "visit_string", "visit_unit", "visit_none"];
        let tcx = self.tcx;
        let n = tcx.item_name(did);
        NAMES.contains(&n.as_str())
            && !self.path(did).contains("__")
            && tcx.generics_of(did).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count() == 1
            && tcx.generics_of(did).own_params.iter().all(|p| !matches!(p.kind, ty::GenericParamDefKind::Const { .. }))
            && tcx.generics_of(did).parent.map_or(true, |p| !tcx.generics_of(p).requires_monomorphization(tcx))
    }

    /// Whether dropping a type can run code of this crate.
    fn interesting_drop(&self, t: Ty<'tcx>) -> bool {
        fn go<'tcx>(d: &D<'tcx>, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>) -> bool {
            if !seen.insert(t) || seen.len() > 200 {
                return false;
            }
            let tcx = d.tcx;
            match t.kind() {
                ty::Adt(def, args) => {
                    if let Some(dt) = tcx.adt_destructor(def.did()) {
                        if tcx.crate_name(dt.did.krate).as_str() == "procstar" {
                            return true;
                        }
                    }
                    for a in args.types() {
                        if go(d, a, seen) {
                            return true;
                        }
                    }
                    if tcx.crate_name(def.did().krate).as_str() == "procstar" {
                        for f in def.all_fields() {
                            let ft = tcx.normalize_erasing_regions(d.env, f.ty(tcx, args));
                            if go(d, ft, seen) {
                                return true;
                            }
                        }
                    }
                    false
                }
                ty::Tuple(ts) => ts.iter().any(|x| go(d, x, seen)),
                ty::Array(x, _) | ty::Slice(x) => go(d, *x, seen),
                ty::Closure(_, args) => args.as_closure().upvar_tys().iter().any(|x| go(d, x, seen)),
                _ => false,
            }
        }
        go(self, t, &mut HashSet::new())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyq.len();
        self.tys.insert(t, i);
        self.tyq.push(t);
        self.tynest.push(self.nest);
        if let ty::Closure(def, args) | ty::Coroutine(def, args) = t.kind() {
            self.enqueue(Instance::new_raw(*def, *args), self.nest);
        }
        i
    }

    /// The key of a type's implementation of a trait's method, if its body is exported.
    fn impl_method(&mut self, t: Ty<'tcx>, tr: Option<DefId>, name: &str) -> Option<String> {
        use rustc_trait_selection::infer::{InferCtxtExt, TyCtxtInferExt};
        let tcx = self.tcx;
        let tr = tr?;
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(self.env);
        if !infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions() {
            return None;
        }
        let m = tcx
            .associated_item_def_ids(tr)
            .iter()
            .copied()
            .find(|d| tcx.item_name(*d).as_str() == name)?;
        let args = ty::GenericArgs::for_item(tcx, m, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => t.into(),
        });
        let i = Instance::try_resolve(tcx, self.env, m, args).ok().flatten()?;
        if self.enqueue(i, self.nest + 1) {
            Some(self.key(i))
        } else {
            None
        }
    }

    fn jty(&mut self, t: Ty<'tcx>) -> J {
        J::i(self.ty(t))
    }

    fn dump_ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let s = full!(format!("{}", t));
        let mut o = vec![("s", J::s(s))];
        let mut k = "other";
        match t.kind() {
            ty::Bool => k = "bool",
            ty::Char => k = "char",
            ty::Int(i) => {
                k = "int";
                o.push(("bits", J::Int(i.bit_width().unwrap_or(64) as i128)));
                o.push(("signed", J::Bool(true)));
            }
            ty::Uint(i) => {
                k = "int";
                o.push(("bits", J::Int(i.bit_width().unwrap_or(64) as i128)));
                o.push(("signed", J::Bool(false)));
            }
            ty::Float(_) => k = "float",
            ty::Str => k = "str",
            ty::Never => k = "never",
            ty::Adt(def, args) => {
                k = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                o.push(("def", J::s(self.path(def.did()))));
                let a = args.types().map(|x| self.jty(x)).collect();
                o.push(("args", J::Arr(a)));
                o.push(("box", J::Bool(def.is_box())));
                let local = tcx.crate_name(def.did().krate).as_str() == "procstar";
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        J::Int(def.discriminant_for_variant(tcx, vi).val as i128)
                    } else {
                        J::Null
                    };
                    let mut fs = Vec::new();
                    if def.is_enum() || local || v.fields.len() <= 12 {
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env, ft)
                                .ok();
                            let ftj = match ft {
                                Some(ft) if def.is_enum() || local => self.jty(ft),
                                _ => J::Null,
                            };
                            fs.push(J::Arr(vec![J::s(f.name.to_string()), ftj]));
                        }
                    }
                    vs.push(J::Obj(vec![
                        ("name", J::s(v.name.to_string())),
                        ("discr", discr),
                        ("fields", J::Arr(fs)),
                    ]));
                }
                o.push(("variants", J::Arr(vs)));
                if self.allowed(def.did()) && !t.has_param() {
                    let it = tcx.get_diagnostic_item(rustc_span::sym::Iterator);
                    if let Some(k) = self.impl_method(t, it, "next") {
                        o.push(("next", J::s(k)));
                    }
                    if let Some(k) = self.impl_method(t, tcx.lang_items().future_trait(), "poll") {
                        o.push(("poll", J::s(k)));
                    }
                }
                if local && !t.has_param() && tcx.adt_destructor(def.did()).is_some() {
                    if let Some(k) = self.impl_method(t, tcx.lang_items().drop_trait(), "drop") {
                        o.push(("drop", J::s(k)));
                    }
                }
            }
            ty::Ref(_, x, m) => {
                k = "ref";
                o.push(("mut", J::Bool(m.is_mut())));
                let x = self.jty(*x);
                o.push(("args", J::Arr(vec![x])));
            }
            ty::RawPtr(x, m) => {
                k = "ptr";
                o.push(("mut", J::Bool(m.is_mut())));
                let x = self.jty(*x);
                o.push(("args", J::Arr(vec![x])));
            }
            ty::Array(x, n) => {
                k = "array";
                let x = self.jty(*x);
                o.push(("args", J::Arr(vec![x])));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.push(("len", J::Int(n as i128)));
                }
            }
            ty::Slice(x) => {
                k = "slice";
                let x = self.jty(*x);
                o.push(("args", J::Arr(vec![x])));
            }
            ty::Tuple(ts) => {
                k = "tuple";
                let a = ts.iter().map(|x| self.jty(x)).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::Closure(def, args) => {
                k = "closure";
                o.push(("def", J::s(self.path(*def))));
                let i = Instance::new_raw(*def, *args);
                o.push(("body", J::s(self.key(i))));
                o.push(("ckind", J::s(format!("{:?}", args.as_closure().kind()))));
                let a = args.as_closure().upvar_tys().iter().map(|x| self.jty(x)).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::Coroutine(def, args) => {
                k = "coroutine";
                o.push(("def", J::s(self.path(*def))));
                let i = Instance::new_raw(*def, *args);
                o.push(("body", J::s(self.key(i))));
                let a = args.as_coroutine().upvar_tys().iter().map(|x| self.jty(x)).collect();
                o.push(("args", J::Arr(a)));
                if def.is_local() || tcx.crate_name(def.krate).as_str() == "procstar" {
                    if let Ok(l) = tcx.coroutine_layout(*def, args) {
                        let mut saved = Vec::new();
                        for f in l.field_tys.iter() {
                            let (file, line) = self.loc(f.source_info.span);
                            saved.push(J::Obj(vec![
                                ("ty", J::s(full!(format!("{}", f.ty)))),
                                ("file", J::s(file)),
                                ("line", J::i(line)),
                                ("ignore", J::Bool(f.ignore_for_traits)),
                            ]));
                        }
                        o.push(("saved", J::Arr(saved)));
                        let vf = l
                            .variant_fields
                            .iter()
                            .map(|v| J::Arr(v.iter().map(|x| J::i(x.index())).collect()))
                            .collect();
                        o.push(("vfields", J::Arr(vf)));
                        let vs = l
                            .variant_source_info
                            .iter()
                            .map(|s| {
                                let (file, line) = self.loc(s.span);
                                J::Arr(vec![J::s(file), J::i(line)])
                            })
                            .collect();
                        o.push(("vlines", J::Arr(vs)));
                    }
                }
            }
            ty::FnDef(def, args) => {
                k = "fndef";
                o.push(("def", J::s(self.path(*def))));
                let c = self.callee(*def, args.no_bound_vars().unwrap_or(args.skip_binder()));
                o.push(("fn", c));
            }
            ty::FnPtr(..) => k = "fnptr",
            ty::Dynamic(..) => {
                k = "dyn";
            }
            _ => {}
        }
        o.push(("k", J::s(k)));
        J::Obj(o)
    }

    fn callee(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("decl", J::s(self.path(def)))];
        let targs = args.types().map(|t| self.jty(t)).collect();
        o.push(("targs", J::Arr(targs)));
        let r = if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            Instance::try_resolve(tcx, self.env, def, args).ok().flatten()
        } else {
            None
        };
        match r {
            None => o.push(("kind", J::s("unresolved"))),
            Some(i) => {
                o.push(("key", J::s(self.key(i))));
                o.push(("path", J::s(self.path(i.def_id()))));
                o.push(("crate", J::s(tcx.crate_name(i.def_id().krate).to_string())));
                let kind = match i.def {
                    InstanceKind::Item(d) if tcx.is_foreign_item(d) => "foreign",
                    InstanceKind::Item(d) if matches!(tcx.def_kind(d), DefKind::Ctor(..)) => "ctor",
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                    InstanceKind::Shim(_) => "shim",
                };
                o.push(("kind", J::s(kind)));
                let b = self.enqueue(i, self.nest);
                o.push(("body", J::Bool(b)));
            }
        }
        J::Obj(o)
    }

    fn constant(&mut self, c: Const<'tcx>, span: Span) -> J {
        let ty = c.ty();
        let mut o = vec![("ty", self.jty(ty))];
        if let ty::FnDef(def, args) = ty.kind() {
            let f = self.callee(*def, args.no_bound_vars().unwrap_or(args.skip_binder()));
            o.push(("fn", f));
            return J::Obj(vec![("const", J::Obj(o))]);
        }
        match c.eval(self.tcx, self.env, span) {
            Ok(v) => o.push(("v", self.cval(v, ty, 0))),
            Err(_) => o.push(("v", J::Null)),
        }
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                o.push(("item", J::s(self.path(u.def))));
            }
        }
        J::Obj(vec![("const", J::Obj(o))])
    }

    fn cval(&mut self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::Null;
        }
        if let ty::Pat(b, _) = ty.kind() {
            return self.cval(v, *b, depth + 1);
        }
        match v {
            ConstValue::Slice { alloc_id, meta } => {
                let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) else { return J::Null };
                if let ty::Ref(_, x, _) = ty.kind() {
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    if x.is_str() {
                        return J::Obj(vec![("str", J::s(String::from_utf8_lossy(b).to_string()))]);
                    }
                    return J::Obj(vec![("bytes", J::s(String::from_utf8_lossy(b).to_string()))]);
                }
                return J::Null;
            }
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let n = match ty.kind() {
                    ty::Int(_) => i.to_int(i.size()),
                    ty::Bool | ty::Char | ty::Uint(_) | ty::Float(_) => bits as i128,
                    ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..) => {
                        return J::Obj(vec![("addr", J::Int(bits as i128))])
                    }
                    _ => return self.destruct(v, ty, depth),
                };
                return J::Obj(vec![("int", J::Int(n))]);
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => {
                        let inner = if !tcx.is_mutable_static(d) && d.is_local() && self.statics.insert(d) {
                            J::Null
                        } else {
                            J::Null
                        };
                        let _ = inner;
                        return J::Obj(vec![("static", J::s(self.path(d)))]);
                    }
                    GlobalAlloc::Function { instance } => {
                        let k = self.key(instance);
                        let b = self.enqueue(instance, self.nest);
                        return J::Obj(vec![("fnptr", J::s(k)), ("body", J::Bool(b))]);
                    }
                    GlobalAlloc::Memory(_) => {
                        let pt = match ty.kind() {
                            ty::Ref(_, x, _) => *x,
                            ty::RawPtr(x, _) => *x,
                            _ => return self.destruct(v, ty, depth),
                        };
                        if matches!(pt.kind(), ty::Slice(_) | ty::Str | ty::Dynamic(..)) {
                            return J::Null;
                        }
                        let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                        let r = self.cval(iv, pt, depth + 1);
                        return J::Obj(vec![("ref", r)]);
                    }
                    _ => return J::Null,
                }
            }
            ConstValue::ZeroSized => {
                if let ty::FnDef(def, args) = ty.kind() {
                    let f = self.callee(*def, args.no_bound_vars().unwrap_or(args.skip_binder()));
                    return J::Obj(vec![("fn", f)]);
                }
                return self.destruct(v, ty, depth);
            }
            ConstValue::Indirect { alloc_id, offset } => {
                // Scalars and wide pointers in memory.
                let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) else { return J::Null };
                let Ok(layout) = tcx.layout_of(self.env.as_query_input(ty)) else { return J::Null };
                let a = m.inner();
                let start = offset.bytes() as usize;
                let size = layout.size.bytes() as usize;
                let rd = |o: usize, n: usize| -> u128 {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                    let mut x = 0u128;
                    for (i, y) in b.iter().enumerate() {
                        x |= (*y as u128) << (8 * i);
                    }
                    x
                };
                match ty.kind() {
                    ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => {
                        let x = rd(start, size);
                        let n = if matches!(ty.kind(), ty::Int(_)) && size < 16 {
                            let sh = 128 - 8 * size as u32;
                            ((x << sh) as i128) >> sh
                        } else {
                            x as i128
                        };
                        return J::Obj(vec![("int", J::Int(n))]);
                    }
                    ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                        let prov = a.provenance().ptrs().get(&offset).copied();
                        let Some(prov) = prov else {
                            return J::Obj(vec![("addr", J::Int(rd(start, 8) as i128))]);
                        };
                        let aid = prov.alloc_id();
                        let po = rd(start, 8) as u64;
                        match tcx.global_alloc(aid) {
                            GlobalAlloc::Static(d) => {
                                return J::Obj(vec![("static", J::s(self.path(d)))])
                            }
                            GlobalAlloc::Memory(m2) => {
                                if size == 16 {
                                    let n = rd(start + 8, 8) as usize;
                                    if x.is_str() {
                                        let b = m2.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                            po as usize..po as usize + n,
                                        );
                                        return J::Obj(vec![(
                                            "str",
                                            J::s(String::from_utf8_lossy(b).to_string()),
                                        )]);
                                    }
                                    if let ty::Slice(et) = x.kind() {
                                        let Ok(el) = tcx.layout_of(self.env.as_query_input(*et)) else {
                                            return J::Null;
                                        };
                                        let mut v = Vec::new();
                                        for i in 0..n.min(64) {
                                            let off = rustc_abi::Size::from_bytes(
                                                po + i as u64 * el.size.bytes(),
                                            );
                                            v.push(self.cval(
                                                ConstValue::Indirect { alloc_id: aid, offset: off },
                                                *et,
                                                depth + 1,
                                            ));
                                        }
                                        return J::Obj(vec![("ref", J::Obj(vec![("arr", J::Arr(v))]))]);
                                    }
                                    return J::Null;
                                }
                                let r = self.cval(
                                    ConstValue::Indirect {
                                        alloc_id: aid,
                                        offset: rustc_abi::Size::from_bytes(po),
                                    },
                                    *x,
                                    depth + 1,
                                );
                                return J::Obj(vec![("ref", r)]);
                            }
                            _ => return J::Null,
                        }
                    }
                    _ => return self.destruct(v, ty, depth),
                }
            }
        }
    }

    fn destruct(&mut self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match ty.kind() {
            ty::Adt(def, _) if def.is_union() => return J::Null,
            ty::Adt(..) | ty::Tuple(..) => {}
            ty::Array(_, n) => match n.try_to_target_usize(tcx) {
                Some(n) if n <= 128 => {}
                _ => return J::Null,
            },
            ty::Closure(..) => return J::Obj(vec![("zst", J::Bool(true))]),
            _ => return J::Null,
        }
        match tcx.try_destructure_mir_constant_for_user_output(v, ty) {
            Some(dc) => {
                let fs = dc.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                let n = if matches!(ty.kind(), ty::Array(..)) { "arr" } else { "fields" };
                J::Obj(vec![
                    (n, J::Arr(fs)),
                    ("variant", dc.variant.map_or(J::Null, |v| J::i(v.index()))),
                ])
            }
            None => J::Null,
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut pr = Vec::new();
        let mut cur = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.jty(t);
                    J::Arr(vec![J::s("f"), J::i(f.index()), t])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::i(l.index())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::Arr(vec![J::s("ci"), J::Int(offset as i128), J::Bool(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("sub"), J::Int(from as i128), J::Int(to as i128), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![J::s("v"), J::i(v.index())]),
                _ => J::Arr(vec![J::s("cast")]),
            };
            pr.push(j);
            cur = cur.projection_ty(self.tcx, e);
        }
        let t = self.jty(cur.ty);
        J::Arr(vec![J::i(p.local.index()), J::Arr(pr), t])
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Obj(vec![("copy", self.place(p, body))]),
            Operand::Move(p) => J::Obj(vec![("move", self.place(p, body))]),
            Operand::Constant(c) => self.constant(c.const_, c.span),
            Operand::RuntimeChecks(_) => J::Obj(vec![("rtc", J::Bool(true))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::Arr(vec![J::s("use"), self.operand(o, body)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map_or(J::Null, |n| J::Int(n as i128));
                J::Arr(vec![J::s("repeat"), self.operand(o, body), n])
            }
            Rvalue::Ref(_, k, p) => J::Arr(vec![
                J::s("ref"),
                self.place(p, body),
                J::Bool(matches!(k, BorrowKind::Mut { .. })),
            ]),
            Rvalue::RawPtr(_, p) => J::Arr(vec![J::s("ref"), self.place(p, body), J::Bool(true)]),
            Rvalue::ThreadLocalRef(d) => J::Arr(vec![J::s("tls"), J::s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let t = self.jty(*t);
                J::Arr(vec![J::s("cast"), J::s(format!("{:?}", k)), self.operand(o, body), t])
            }
            Rvalue::BinaryOp(b, ops) => J::Arr(vec![
                J::s("bin"),
                J::s(format!("{:?}", b)),
                self.operand(&ops.0, body),
                self.operand(&ops.1, body),
            ]),
            Rvalue::UnaryOp(b, o) => {
                J::Arr(vec![J::s("un"), J::s(format!("{:?}", b)), self.operand(o, body)])
            }
            Rvalue::Discriminant(p) => J::Arr(vec![J::s("discr"), self.place(p, body)]),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p, body);
                J::Arr(vec![J::s("use"), J::Obj(vec![("copy", p)])])
            }
            Rvalue::Reborrow(_, _, p) => {
                let p = self.place(p, body);
                J::Arr(vec![J::s("use"), J::Obj(vec![("copy", p)])])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::Arr(vec![J::s("use"), self.operand(o, body)]),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o, body)).collect();
                let t = self.jty(r.ty(&body.local_decls, self.tcx));
                let v = match &**k {
                    AggregateKind::Adt(_, v, _, _, None) => J::i(v.index()),
                    AggregateKind::Adt(_, _, _, _, Some(f)) => J::s(format!("union{}", f.index())),
                    _ => J::Null,
                };
                J::Arr(vec![J::s("agg"), t, v, J::Arr(os)])
            }
        }
    }

    fn unwind(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::i(b.index()),
            _ => J::Null,
        }
    }

    fn dump_fn(&mut self, i: Instance<'tcx>, _depth: usize) -> Option<J> {
        let tcx = self.tcx;
        let body0 = tcx.instance_mir(i.def);
        let body: Body<'tcx> = i
            .try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                EarlyBinder::bind(tcx, body0.clone()),
            )
            .ok()?;
        let def = i.def_id();
        let (file, line) = self.loc(body.span);
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.jty(l.ty)).collect();
        let mut names = Vec::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p, &body);
                names.push(J::Arr(vec![J::s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = Vec::new();
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut ss = Vec::new();
            for s in &b.statements {
                let (_, ln) = self.loc(s.source_info.span);
                let j = match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0, &body);
                        let r = self.rvalue(&a.1, &body);
                        J::Arr(vec![J::s("="), p, r, J::i(ln)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, &body);
                        J::Arr(vec![J::s("sd"), p, J::i(variant_index.index())])
                    }
                    StatementKind::StorageDead(l) => J::Arr(vec![J::s("dead"), J::i(l.index())]),
                    _ => continue,
                };
                ss.push(j);
            }
            let t = b.terminator();
            let (_, ln) = self.loc(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![J::s("goto"), J::i(target.index())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, &body);
                    let st = discr.ty(&body.local_decls, tcx);
                    let size = tcx.layout_of(self.env.as_query_input(st)).map(|l| l.size.bits()).unwrap_or(64);
                    let signed = matches!(st.kind(), ty::Int(_));
                    let ts = targets
                        .iter()
                        .map(|(v, b)| {
                            let n = if signed && size < 128 {
                                let sh = 128 - size as u32;
                                ((v << sh) as i128) >> sh
                            } else {
                                v as i128
                            };
                            J::Arr(vec![J::Int(n), J::i(b.index())])
                        })
                        .collect();
                    J::Arr(vec![J::s("switch"), o, J::Arr(ts), J::i(targets.otherwise().index())])
                }
                TerminatorKind::UnwindResume => J::Arr(vec![J::s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::Arr(vec![J::s("abort")]),
                TerminatorKind::Return => J::Arr(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::Arr(vec![J::s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let p = self.place(place, &body);
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let key = if self.interesting_drop(pt) {
                        let di = Instance::resolve_drop_glue(tcx, pt);
                        if self.enqueue(di, self.nest) {
                            J::s(self.key(di))
                        } else {
                            J::Null
                        }
                    } else {
                        J::Null
                    };
                    J::Arr(vec![J::s("drop"), p, J::i(target.index()), Self::unwind(unwind), key])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, &body);
                    let a = args.iter().map(|x| self.operand(&x.node, &body)).collect();
                    let d = self.place(destination, &body);
                    J::Arr(vec![
                        J::s("call"),
                        f,
                        J::Arr(a),
                        d,
                        target.map_or(J::Null, |t| J::i(t.index())),
                        Self::unwind(unwind),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, &body);
                    let m = format!("{:?}", msg);
                    let m = m.split(|c: char| c == '(' || c == ' ' || c == '{').next().unwrap_or("").to_string();
                    let (m, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("BoundsCheck".to_string(), vec![self.operand(len, &body), self.operand(index, &body)])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            (format!("Overflow{:?}", op), vec![self.operand(a, &body), self.operand(b, &body)])
                        }
                        AssertKind::DivisionByZero(_) => ("DivisionByZero".to_string(), vec![]),
                        AssertKind::RemainderByZero(_) => ("RemainderByZero".to_string(), vec![]),
                        AssertKind::ResumedAfterReturn(_) => ("Resumed".to_string(), vec![]),
                        AssertKind::ResumedAfterPanic(_) => ("Resumed".to_string(), vec![]),
                        AssertKind::ResumedAfterDrop(_) => ("Resumed".to_string(), vec![]),
                        _ => (m, vec![]),
                    };
                    J::Arr(vec![
                        J::s("assert"),
                        c,
                        J::Bool(*expected),
                        J::s(m),
                        J::i(target.index()),
                        Self::unwind(unwind),
                        J::Arr(ops),
                    ])
                }
                TerminatorKind::Yield { resume, .. } => J::Arr(vec![J::s("yield"), J::i(resume.index())]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::Arr(vec![J::s("goto"), J::i(real_target.index())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::Arr(vec![J::s("goto"), J::i(real_target.index())])
                }
                _ => J::Arr(vec![J::s("other")]),
            };
            blocks.push(J::Obj(vec![
                ("s", J::Arr(ss)),
                ("t", tj),
                ("ln", J::i(ln)),
                ("cl", J::Bool(b.is_cleanup)),
            ]));
        }
        let is_cor = body.coroutine.is_some();
        let _ = (FieldIdx::from_usize(0), VariantIdx::from_usize(0));
        Some(J::Obj(vec![
            ("path", J::s(self.path(def))),
            ("crate", J::s(tcx.crate_name(def.krate).to_string())),
            ("kind", J::s(format!("{:?}", i.def).split('(').next().unwrap_or("").to_string())),
            ("cor", J::Bool(is_cor)),
            ("file", J::s(file)),
            ("line", J::i(line)),
            ("argc", J::i(body.arg_count)),
            ("spread", body.spread_arg.map_or(J::Null, |l| J::i(l.index()))),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ]))
    }
}
