use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
    queue: VecDeque<Job<'tcx>>,
    seen: HashSet<String>,
    allow: Vec<String>,
}
#[derive(Clone)]
struct Job<'tcx> {
    id: String,
    kind: &'static str,
    instance: Instance<'tcx>,
    env: TypingEnv<'tcx>,
    envname: String,
    promoted: Option<usize>,
}

/// Prefix local paths with the crate name, so that the same item has the same
/// name in every crate's facts.  rustc prints local paths without the crate.
fn rewrite_crate(p: &str, krate: &str) -> String {
    p.replace("crate::", &format!("{}::", krate))
}

impl<'tcx> Ctx<'tcx> {
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let s = rustc_middle::ty::print::with_crate_prefix!(with_no_trimmed_paths!(t.to_string()));
        rewrite_crate(&s, self.tcx.crate_name(LOCAL_CRATE).as_str())
    }
    fn dpath(&self, d: DefId) -> String {
        let s = rustc_middle::ty::print::with_crate_prefix!(with_no_trimmed_paths!(self.tcx.def_path_str(d)));
        rewrite_crate(&s, self.tcx.crate_name(LOCAL_CRATE).as_str())
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(J::n(self.ty(t)));
            } else if let Some(c) = x.as_const() {
                v.push(J::s(with_no_trimmed_paths!(format!("const {}", c))));
            }
        }
        J::Arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.tymap.insert(t, i);
        self.types.push(J::Null);
        let s = self.tystr(t);
        let mut o = vec![("s", J::s(s))];
        match t.kind() {
            ty::Adt(d, a) => {
                o.push(("k", J::s("adt")));
                o.push(("d", J::s(self.dpath(d.did()))));
                let u = self.tcx.def_path(d.did()).to_string_no_crate_verbose();
                o.push(("u", J::s(format!("{}{}", self.tcx.crate_name(d.did().krate), u))));
                let a2 = self.args(a);
                o.push(("a", a2));
                self.adt(*d);
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("m", J::Bool(m.is_mut())));
                let x = self.ty(*inner);
                o.push(("a", J::Arr(vec![J::n(x)])));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("m", J::Bool(m.is_mut())));
                let x = self.ty(*inner);
                o.push(("a", J::Arr(vec![J::n(x)])));
            }
            ty::Slice(inner) => {
                o.push(("k", J::s("slice")));
                let x = self.ty(*inner);
                o.push(("a", J::Arr(vec![J::n(x)])));
            }
            ty::Array(inner, n) => {
                o.push(("k", J::s("array")));
                let x = self.ty(*inner);
                o.push(("a", J::Arr(vec![J::n(x)])));
                o.push(("n", J::s(n.to_string())));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|x| J::n(self.ty(x))).collect();
                o.push(("a", J::Arr(v)));
            }
            ty::Closure(d, a) => {
                o.push(("k", J::s("closure")));
                o.push(("d", J::s(self.dpath(*d))));
                let up: Vec<J> = a
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| J::n(self.ty(x)))
                    .collect();
                o.push(("a", J::Arr(up)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", J::s("fndef")));
                o.push(("d", J::s(self.dpath((*d).into()))));
                let _ = a;
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("d", J::s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => o.push(("k", J::s("prim"))),
            ty::Never => o.push(("k", J::s("never"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[i] = J::Obj(o);
        i
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        if !self.adt_seen.insert(d.did()) {
            return;
        }
        let tcx = self.tcx;
        let name = self.dpath(d.did());
        let mut vs = vec![];
        if d.is_enum() || d.is_struct() {
            let discrs: Vec<String> = if d.is_enum() {
                d.discriminants(tcx).map(|(_, x)| {
                    let signed = x.ty.is_signed();
                    if signed {
                        let bits = x.ty.primitive_size(tcx).bits();
                        let sh = 128 - bits as u32;
                        (((x.val << sh) as i128) >> sh).to_string()
                    } else { x.val.to_string() }
                }).collect()
            } else {
                vec!["0".into()]
            };
            for (i, v) in d.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = self.ty(fty);
                    fs.push(J::Obj(vec![
                        ("n", J::s(f.name.to_string())),
                        ("t", J::n(t)),
                        ("pub", J::Bool(f.vis.is_public())),
                        ("vis", J::s(format!("{:?}", f.vis))),
                    ]));
                }
                vs.push(J::Obj(vec![
                    ("n", J::s(v.name.to_string())),
                    ("d", J::n(&discrs[i.as_usize()])),
                    ("f", J::Arr(fs)),
                ]));
            }
        }
        let env = TypingEnv::post_analysis(tcx, d.did());
        let selfty = tcx.type_of(d.did()).instantiate_identity().skip_norm_wip();
        let freeze = selfty.is_freeze(tcx, env);
        let repr = format!("{:?}", d.repr());
        let (mut send, mut sync) = (false, false);
        if d.did().is_local() {
            use rustc_infer::infer::TyCtxtInferExt;
            use rustc_trait_selection::infer::InferCtxtExt;
            let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
            let holds = |t: Option<DefId>| t.map(|t| infcx.type_implements_trait(t, [selfty], penv).must_apply_modulo_regions()).unwrap_or(false);
            send = holds(tcx.get_diagnostic_item(rustc_span::sym::Send));
            sync = holds(tcx.lang_items().sync_trait());
        }
        self.adts.insert(
            name,
            J::Obj(vec![
                ("enum", J::Bool(d.is_enum())),
                ("union", J::Bool(d.is_union())),
                ("local", J::Bool(d.did().is_local())),
                ("span", J::s(self.span(tcx.def_span(d.did())))),
                ("freeze", J::Bool(freeze)),
                ("send", J::Bool(send)),
                ("sync", J::Bool(sync)),
                ("pub", J::Bool(tcx.visibility(d.did()).is_public())),
                ("repr", J::s(repr)),
                ("v", J::Arr(vs)),
            ]),
        );
    }

    /// Short stable id: item path, plus a hash of the generic arguments.
    fn inst_id(&self, inst: &Instance<'tcx>, envname: &str) -> String {
        let long = self.inst_id_long(inst, envname);
        match long.find('|') {
            None => long,
            Some(i) => {
                let mut h: u64 = 0xcbf29ce484222325;
                let mut g: u64 = 0x9e3779b97f4a7c15;
                for b in long.bytes() {
                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                    g = (g.rotate_left(7) ^ b as u64).wrapping_mul(0xff51afd7ed558ccd);
                }
                format!("{}~{:08x}{:08x}", &long[..i], (h >> 32) as u32 ^ h as u32, (g >> 32) as u32 ^ g as u32)
            }
        }
    }
    fn inst_id_long(&self, inst: &Instance<'tcx>, envname: &str) -> String {
        let args = self.tcx.erase_and_anonymize_regions(inst.args);
        let mut s = self.dpath(inst.def_id());
        if !args.is_empty() {
            let a = rustc_middle::ty::print::with_crate_prefix!(with_no_trimmed_paths!(format!("{:?}", args)));
            s = format!("{}|{}", s, rewrite_crate(&a, self.tcx.crate_name(LOCAL_CRATE).as_str()));
        }
        match inst.def {
            InstanceKind::Item(_) => {}
            InstanceKind::Virtual(..) => s.push_str("|virtual"),
            InstanceKind::Intrinsic(..) => s.push_str("|intrinsic"),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => s.push_str("|once"),
            InstanceKind::Shim(k) => s.push_str(&format!("|shim:{:?}", std::mem::discriminant(&k))),
            _ => s.push_str("|other"),
        }
        if args.has_param() {
            s.push_str("|@");
            s.push_str(envname);
        }
        s
    }
    fn wants_const(&self, d: DefId) -> bool {
        let k = self.tcx.crate_name(d.krate).to_string();
        d.is_local() || self.allow.iter().any(|a| *a == k)
    }
    fn wants_body(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let k = self.tcx.crate_name(d.krate).to_string();
        if self.allow.iter().any(|a| *a == k) {
            return true;
        }
        if k == "core" || k == "alloc" || k == "std" {
            let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
            const OK: &[&str] = &[
                "option::Option", "result::Result", "ops::ControlFlow", "ops::control_flow", "ops::try_trait", "convert::",
                "bool::", "cmp::", "core::clone::", "core::default::", "ops::function",
                "array::<impl", "tuple::",
            ];
            if OK.iter().any(|x| p.contains(x)) && !p.contains("IntoIter") && !p.contains("option::Iter") && !p.contains("collect") {
                return true;
            }
        }
        false
    }
    fn enqueue(&mut self, kind: &'static str, inst: Instance<'tcx>, env: TypingEnv<'tcx>, envname: &str) -> String {
        let id = self.inst_id(&inst, envname);
        if self.seen.insert(id.clone()) {
            self.queue.push_back(Job { id: id.clone(), kind, instance: inst, env, envname: envname.to_string(), promoted: None });
        }
        id
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, job: &Job<'tcx>, parent: &str) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("k", J::s("const"))];
        let tid = self.ty(t);
        o.push(("ty", J::n(tid)));
        if let ty::FnDef(d, a) = t.kind() {
            let a: GenericArgsRef<'tcx> = a.skip_binder();
            let c = self.callee((*d).into(), a, job);
            o.push(("fn", c));
            return J::Obj(o);
        }
        let mut val: Option<mir::ConstValue> = None;
        match c.const_ {
            Const::Val(v, _) => val = Some(v),
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let pid = format!("{}#p{}", parent, p.as_usize());
                    o.push(("promoted", J::s(pid)));
                } else {
                    o.push(("uneval", J::s(self.dpath(u.def))));
                    let a = self.args(u.args);
                    o.push(("args", a));
                    let dk = tcx.def_kind(u.def);
                    if matches!(dk, DefKind::AssocConst { .. } | DefKind::Const { .. } | DefKind::AnonConst) {
                        // resolve trait consts
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, job.env, u.def, u.args) {
                            let has_body = matches!(i.def, InstanceKind::Item(d) if !d.is_local() || tcx.is_mir_available(d));
                            if has_body && self.wants_const(i.def_id()) {
                                let dd = i.def_id();
                                let en = job.envname.clone();
                                if dd.is_local() || (!i.args.is_empty() && tcx.trivial_const(dd).is_none()) {
                                    let id = self.enqueue("const", i, job.env, &en);
                                    o.push(("body", J::s(id)));
                                } else {
                                    // dumped with the defining crate
                                    o.push(("body", J::s(self.inst_id(&i, &en))));
                                }
                            }
                        }
                    }
                    if !u.args.has_param() {
                        if let Ok(v) = c.const_.eval(tcx, job.env, c.span) {
                            val = Some(v);
                        }
                    }
                }
            }
            Const::Ty(_, ct) => {
                o.push(("tyconst", J::s(ct.to_string())));
                if let Some(n) = ct.try_to_target_usize(tcx) {
                    o.push(("int", J::n(n)));
                }
            }
        }
        if let Some(v) = val {
            match v {
                ConstValue::Scalar(interpret::Scalar::Int(si)) => {
                    let bits = si.to_bits_unchecked();
                    let n = if t.is_signed() && si.size().bits() > 0 {
                        let sh = 128 - si.size().bits() as u32;
                        (((bits << sh) as i128) >> sh).to_string()
                    } else {
                        bits.to_string()
                    };
                    if matches!(t.kind(), ty::Adt(..)) {
                        o.push(("adtbits", J::n(n)));
                    } else {
                        o.push(("int", J::n(n)));
                    }
                }
                ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
                _ => {
                    let slicey = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str()
                        || matches!(i.kind(), ty::Slice(e) if *e == tcx.types.u8));
                    let b = if slicey { v.try_get_slice_bytes_for_diagnostics(tcx) } else { None };
                    if let Some(b) = b {
                        o.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
                    } else {
                        // a reference to a local static that can never change
                        if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                            // a byte string (format templates are)
                            if let ty::Ref(_, i, _) = t.kind() {
                                if let ty::Array(e, n) = i.kind() {
                                    if let (true, Some(n), interpret::GlobalAlloc::Memory(m)) = (*e == tcx.types.u8, n.try_to_target_usize(tcx), tcx.global_alloc(p.provenance.alloc_id())) {
                                        let (_, off) = p.prov_and_relative_offset();
                                        let (a, b) = (off.bytes_usize(), off.bytes_usize() + n as usize);
                                        let m = m.inner();
                                        if b <= m.len() {
                                            let by = m.inspect_with_uninit_and_ptr_outside_interpreter(a..b);
                                            o.push(("bytes", J::s(by.iter().map(|x| format!("{:02x}", x)).collect::<String>())));
                                        }
                                    }
                                }
                            }
                            if let interpret::GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                                if d.is_local() && !tcx.is_mutable_static(d) && st.is_freeze(tcx, job.env) {
                                    let en = job.envname.clone();
                                    let id = self.enqueue("const", Instance::mono(tcx, d), job.env, &en);
                                    o.push(("static", J::s(id)));
                                }
                            }
                        }
                        o.push(("opaque", J::s(format!("{:?}", v))));
                    }
                }
            }
        }
        J::Obj(o)
    }

    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, job: &Job<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", J::s(self.dpath(d)))];
        let aj = self.args(a);
        o.push(("args", aj));
        o.push(("name", J::s(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.dpath(t))));
        }
        match Instance::try_resolve(tcx, job.env, d, a) {
            Ok(Some(i)) => {
                o.push(("rdef", J::s(self.dpath(i.def_id()))));
                let ra = self.args(i.args);
                o.push(("rargs", ra));
                match i.def {
                    InstanceKind::Item(rd) => {
                        if tcx.def_kind(rd) == DefKind::Closure {
                            o.push(("closure", J::Bool(true)));
                        }
                        let is_ctor = matches!(tcx.def_kind(rd), DefKind::Ctor(..));
                        if self.wants_body(rd) && (tcx.is_mir_available(rd) || is_ctor) {
                            let id = self.enqueue("fn", i, job.env, &job.envname.clone());
                            o.push(("inst", J::s(id)));
                        }
                    }
                    InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                        o.push(("shim", J::s("closure_once")));
                        o.push(("closure_def", J::s(self.dpath(closure))));
                        let id = self.enqueue("fn", i, job.env, &job.envname.clone());
                        o.push(("inst", J::s(id)));
                    }
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => {
                        o.push(("shim", J::s("fnptr")));
                        let id = self.enqueue("fn", i, job.env, &job.envname.clone());
                        o.push(("inst", J::s(id)));
                    }
                    InstanceKind::Virtual(..) => o.push(("shim", J::s("virtual"))),
                    InstanceKind::Intrinsic(..) => o.push(("shim", J::s("intrinsic"))),
                    InstanceKind::Shim(_) => o.push(("shim", J::s("other"))),
                    _ => o.push(("shim", J::s("other"))),
                }
            }
            Ok(None) => o.push(("unresolved", J::Bool(true))),
            Err(_) => o.push(("unresolved", J::Bool(true))),
        }
        J::Obj(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![J::s("f"), J::n(f.as_usize()), J::n(t)])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::Arr(vec![J::s("ci"), J::n(offset), J::Bool(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("sub"), J::n(from), J::n(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, i) => J::Arr(vec![J::s("v"), J::n(i.as_usize())]),
                _ => J::Arr(vec![J::s("other")]),
            });
        }
        J::Arr(vec![J::n(p.local.as_usize()), J::Arr(v)])
    }
    fn op(&mut self, o: &Operand<'tcx>, job: &Job<'tcx>, parent: &str) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(p)]),
            Operand::Constant(c) => J::Arr(vec![J::s("k"), self.konst(c, job, parent)]),
            Operand::RuntimeChecks(c) => J::Arr(vec![J::s("rc"), J::s(format!("{:?}", c))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, job: &Job<'tcx>, body: &Body<'tcx>, parent: &str) -> J {
        let tcx = self.tcx;
        let _ = body;
        J::Arr(match r {
            Rvalue::Use(o, _) => vec![J::s("use"), self.op(o, job, parent)],
            Rvalue::Repeat(o, n) => {
                let n2 = n.try_to_target_usize(tcx);
                vec![J::s("repeat"), self.op(o, job, parent), n2.map(J::n).unwrap_or(J::Null)]
            }
            Rvalue::Ref(_, k, p) => vec![
                J::s("ref"),
                J::Bool(matches!(k, BorrowKind::Mut { .. })),
                self.place(p),
            ],
            Rvalue::Reborrow(_, m, p) => vec![J::s("ref"), J::Bool(m.is_mut()), self.place(p)],
            Rvalue::ThreadLocalRef(d) => vec![J::s("tls"), J::s(self.dpath(*d))],
            Rvalue::RawPtr(k, p) => vec![J::s("ptr"), J::s(format!("{:?}", k)), self.place(p)],
            Rvalue::Cast(k, o, t) => {
                let mut t0 = o.ty(&body.local_decls, tcx);
                if t0.has_param() || t0.has_aliases() { /* keep */ }
                t0 = tcx.erase_and_anonymize_regions(t0);
                let from = self.ty(t0);
                let t = self.ty(*t);
                vec![J::s("cast"), J::s(format!("{:?}", k)), self.op(o, job, parent), J::n(from), J::n(t)]
            }
            Rvalue::BinaryOp(b, ops) => {
                let t0 = ops.0.ty(&body.local_decls, tcx);
                let from = self.ty(t0);
                vec![
                    J::s("bin"),
                    J::s(format!("{:?}", b)),
                    self.op(&ops.0, job, parent),
                    self.op(&ops.1, job, parent),
                    J::n(from),
                ]
            }
            Rvalue::UnaryOp(u, o) => vec![J::s("un"), J::s(format!("{:?}", u)), self.op(o, job, parent)],
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let t = self.ty(t);
                vec![J::s("discr"), self.place(p), J::n(t)]
            }
            Rvalue::CopyForDeref(p) => vec![J::s("use"), J::Arr(vec![J::s("c"), self.place(p)])],
            Rvalue::WrapUnsafeBinder(o, _) => vec![J::s("use"), self.op(o, job, parent)],
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.op(o, job, parent)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        vec![J::s("array"), J::n(t)]
                    }
                    AggregateKind::Tuple => vec![J::s("tuple")],
                    AggregateKind::Adt(d, v, a, _, f) => {
                        self.adt(tcx.adt_def(*d));
                        let aj = self.args(a);
                        vec![
                            J::s("adt"),
                            J::s(self.dpath(*d)),
                            J::n(v.as_usize()),
                            f.map(|f| J::n(f.as_usize())).unwrap_or(J::Null),
                            aj,
                        ]
                    }
                    AggregateKind::Closure(d, a) => {
                        // also analyse the closure's body, in its creator's instance
                        let i = Instance::new_raw(*d, a);
                        let a2 = tcx.erase_and_anonymize_regions(i.args);
                        let i = Instance::new_raw(*d, a2);
                        let id = self.enqueue("closure", i, job.env, &job.envname.clone());
                        vec![J::s("closure"), J::s(self.dpath(*d)), J::s(id)]
                    }
                    AggregateKind::RawPtr(..) => vec![J::s("rawptr")],
                    _ => vec![J::s("other")],
                };
                vec![J::s("agg"), J::Arr(kj), J::Arr(ops)]
            }
        })
    }

    fn body(&mut self, job: &Job<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let parent = job.id.split("#p").next().unwrap().to_string();
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            let t = self.ty(l.ty);
            locals.push(J::n(t));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::Arr(vec![J::s(v.name.to_string()), self.place(&p)]));
            }
        }
        let mut blocks = vec![];
        for b in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let pj = self.place(p);
                        let rj = self.rvalue(r, job, body, &parent);
                        st.push(J::Arr(vec![J::s("="), pj, rj]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(J::Arr(vec![J::s("setd"), pj, J::n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::Arr(vec![J::s("dead"), J::n(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::Arr(vec![J::s("intr"), J::s(match &**i {
                            NonDivergingIntrinsic::Assume(_) => "assume",
                            _ => "copy",
                        })]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", J::s("goto")), ("t", J::n(target.as_usize()))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let signed = dt.is_signed();
                    let bits = if dt.is_integral() || dt.is_bool() || dt.is_char() {
                        if dt.is_bool() { 8 } else if dt.is_char() { 32 } else { dt.primitive_size(tcx).bits() as u32 }
                    } else { 128 };
                    let vs: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| {
                            let n = if signed {
                                let sh = 128 - bits;
                                (((v << sh) as i128) >> sh).to_string()
                            } else {
                                v.to_string()
                            };
                            J::Arr(vec![J::n(n), J::n(t.as_usize())])
                        })
                        .collect();
                    let ty = self.ty(dt);
                    vec![
                        ("k", J::s("switch")),
                        ("op", self.op(discr, job, &parent)),
                        ("ty", J::n(ty)),
                        ("v", J::Arr(vs)),
                        ("o", J::n(targets.otherwise().as_usize())),
                    ]
                }
                TerminatorKind::Return => vec![("k", J::s("return"))],
                TerminatorKind::Unreachable => vec![("k", J::s("unreachable"))],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![("k", J::s("resume"))],
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    vec![
                        ("k", J::s("drop")),
                        ("p", self.place(place)),
                        ("ty", J::n(pt)),
                        ("t", J::n(target.as_usize())),
                    ]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, job, &parent);
                    let a = args.iter().map(|a| self.op(&a.node, job, &parent)).collect();
                    vec![
                        ("k", J::s("call")),
                        ("f", f),
                        ("a", J::Arr(a)),
                        ("d", self.place(destination)),
                        ("t", target.map(|t| J::n(t.as_usize())).unwrap_or(J::Null)),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div",
                        AssertKind::RemainderByZero(..) => "div",
                        _ => "other",
                    };
                    vec![
                        ("k", J::s("assert")),
                        ("c", self.op(cond, job, &parent)),
                        ("e", J::Bool(*expected)),
                        ("m", J::s(m)),
                        ("t", J::n(target.as_usize())),
                    ]
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    vec![("k", J::s("goto")), ("t", J::n(real_target.as_usize()))]
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![("k", J::s("goto")), ("t", J::n(real_target.as_usize()))]
                }
                _ => vec![("k", J::s("other"))],
            };
            let mut tj = tj;
            tj.push(("sp", J::s(sp)));
            if b.is_cleanup {
                tj.push(("cleanup", J::Bool(true)));
            }
            blocks.push(J::Arr(vec![J::Arr(st), J::Obj(tj)]));
        }
        let d = job.instance.def_id();
        let a = self.args(job.instance.args);
        J::Obj(vec![
            ("id", J::s(job.id.clone())),
            ("kind", J::s(job.kind)),
            ("def", J::s(self.dpath(d))),
            ("args", a),
            ("poly", J::Bool(job.instance.args.has_param())),
            ("span", J::s(self.span(body.span))),
            ("argc", J::n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| J::n(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn run_job(&mut self, job: Job<'tcx>, out: &mut Vec<J>) {
        let tcx = self.tcx;
        let src: &Body<'tcx> = match (job.kind, job.promoted) {
            (_, Some(p)) => &tcx.promoted_mir(job.instance.def_id())[mir::Promoted::from_usize(p)],
            ("const", _) => tcx.mir_for_ctfe(job.instance.def_id()),
            _ => tcx.instance_mir(job.instance.def),
        };
        let norm = job.instance.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            job.env,
            EarlyBinder::bind(tcx, src.clone()),
        );
        let b = match norm {
            Ok(b) => b,
            Err(_) => {
                out.push(J::Obj(vec![("id", J::s(job.id.clone())), ("error", J::s("normalize"))]));
                return;
            }
        };
        let j = self.body(&job, &b);
        out.push(j);
        if job.promoted.is_none() && matches!(job.instance.def, InstanceKind::Item(_)) {
            let d = job.instance.def_id();
            let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
            if !is_ctor {
                let n = tcx.promoted_mir(d).len();
                for i in 0..n {
                    let id = format!("{}#p{}", job.id, i);
                    if self.seen.insert(id.clone()) {
                        self.queue.push_back(Job { id, promoted: Some(i), ..job.clone() });
                    }
                }
            }
        }
    }
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let allow = std::env::var("TPFACTS_CRATES")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let mut cx = Ctx {
        tcx,
        types: vec![],
        tymap: HashMap::new(),
        adts: BTreeMap::new(),
        adt_seen: HashSet::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        allow,
    };
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut items = vec![];
    let mut impls = vec![];
    let eff = tcx.effective_visibilities(());
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let mut o = vec![("def", J::s(cx.dpath(d))), ("kind", J::s("fn"))];
                o.push(("name", J::s(tcx.item_name(d).to_string())));
                o.push(("span", J::s(cx.span(tcx.def_span(d)))));
                o.push(("vis", J::s(format!("{:?}", tcx.visibility(d)))));
                o.push(("pub", J::Bool(tcx.visibility(d).is_public())));
                o.push(("exported", J::Bool(eff.is_exported(ld))));
                o.push(("expansion", J::Bool(tcx.def_span(d).from_expansion())));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<J> = sig.inputs().iter().map(|t| J::n(cx.ty(*t))).collect();
                o.push(("ins", J::Arr(ins)));
                let ret = cx.ty(sig.output());
                o.push(("ret", J::n(ret)));
                o.push(("unsafe", J::Bool(!sig.safety().is_safe())));
                o.push(("abi", J::s(format!("{:?}", sig.abi()))));
                let a = tcx.codegen_fn_attrs(d);
                if let Some(s) = a.symbol_name {
                    o.push(("sym", J::s(s.to_string())));
                } else if a.contains_extern_indicator() {
                    o.push(("sym", J::s(tcx.item_name(d).to_string())));
                }
                if let Some(t) = tcx.trait_of_assoc(d) {
                    o.push(("trait", J::s(cx.dpath(t))));
                }
                if let Some(i) = tcx.impl_of_assoc(d) {
                    let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                    let t = cx.ty(t);
                    o.push(("self", J::n(t)));
                }
                let g = tcx.generics_of(d).requires_monomorphization(tcx);
                o.push(("generic", J::Bool(g)));
                if tcx.is_mir_available(d) {
                    let env = TypingEnv::post_analysis(tcx, d);
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let inst = Instance::new_raw(d, args);
                    let en = cx.dpath(d);
                    let id = cx.enqueue("fn", inst, env, &en);
                    o.push(("inst", J::s(id)));
                }
                items.push(J::Obj(o));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let mut o = vec![("def", J::s(cx.dpath(d))), ("kind", J::s("const"))];
                o.push(("name", J::s(tcx.item_name(d).to_string())));
                o.push(("span", J::s(cx.span(tcx.def_span(d)))));
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                o.push(("ty", J::n(t)));
                o.push(("static", J::Bool(matches!(tcx.def_kind(d), DefKind::Static { .. }))));
                if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
                    o.push(("mut", J::Bool(mutability.is_mut())));
                }
                let has_body = match tcx.def_kind(d) {
                    DefKind::AssocConst { .. } => tcx.is_mir_available(d) && tcx.defaultness(d).has_value(),
                    _ => tcx.is_mir_available(d),
                };
                if has_body {
                    let env = TypingEnv::post_analysis(tcx, d);
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let inst = Instance::new_raw(d, args);
                    let en = cx.dpath(d);
                    let id = cx.enqueue("const", inst, env, &en);
                    o.push(("inst", J::s(id)));
                }
                items.push(J::Obj(o));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                cx.adt(tcx.adt_def(d));
                let mut o = vec![("def", J::s(cx.dpath(d))), ("kind", J::s("adt"))];
                o.push(("exported", J::Bool(eff.is_exported(ld))));
                o.push(("span", J::s(cx.span(tcx.def_span(d)))));
                items.push(J::Obj(o));
            }
            DefKind::TyAlias => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                items.push(J::Obj(vec![
                    ("def", J::s(cx.dpath(d))),
                    ("kind", J::s("alias")),
                    ("ty", J::n(t)),
                ]));
            }
            DefKind::Impl { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                let mut o = vec![("self", J::n(t)), ("span", J::s(cx.span(tcx.def_span(d))))];
                let of_trait = tcx.impl_opt_trait_ref(d);
                if let Some(tr) = of_trait {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(cx.dpath(tr.def_id))));
                    let a = cx.args(tr.args);
                    o.push(("targs", a));
                    o.push(("unsafe", J::Bool(!tcx.impl_trait_header(d).safety.is_safe())));
                    o.push(("negative", J::Bool(matches!(tcx.impl_polarity(d), ty::ImplPolarity::Negative))));
                }
                o.push(("expansion", J::Bool(tcx.def_span(d).from_expansion())));
                let mut ms = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let mut m = vec![("n", J::s(it.opt_name().map(|s| s.to_string()).unwrap_or_default())), ("def", J::s(cx.dpath(it.def_id)))];
                    if matches!(it.kind, ty::AssocKind::Type { .. }) {
                        let tt = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let tt = cx.ty(tt);
                        m.push(("ty", J::n(tt)));
                    }
                    ms.push(J::Obj(m));
                }
                o.push(("items", J::Arr(ms)));
                impls.push(J::Obj(o));
            }
            _ => {}
        }
    }
    // hand-written unsafe (not produced by a macro of another crate)
    let mut uns = vec![];
    {
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'a, 'tcx> {
            tcx: TyCtxt<'tcx>,
            out: &'a mut Vec<(Span, &'static str)>,
        }
        impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    self.out.push((b.span, "unsafe block"));
                }
                intravisit::walk_block(self, b);
            }
        }
        let mut found = vec![];
        let mut v = V { tcx, out: &mut found };
        tcx.hir_walk_toplevel_module(&mut v);
        for (sp, k) in found {
            let mut external = false;
            if sp.from_expansion() {
                let ed = sp.ctxt().outer_expn_data();
                external = ed.macro_def_id.map(|d| !d.is_local()).unwrap_or(false);
            }
            uns.push(J::Obj(vec![
                ("span", J::s(cx.span(sp))),
                ("k", J::s(k)),
                ("expansion", J::Bool(sp.from_expansion())),
                ("external", J::Bool(external)),
            ]));
        }
    }
    let mut bodies = vec![];
    while let Some(job) = cx.queue.pop_front() {
        cx.run_job(job, &mut bodies);
    }
    let adts: Vec<J> = std::mem::take(&mut cx.adts)
        .into_iter()
        .map(|(k, v)| J::Arr(vec![J::s(k), v]))
        .collect();
    J::Obj(vec![
        ("crate", J::s(krate)),
        ("items", J::Arr(items)),
        ("impls", J::Arr(impls)),
        ("adts", J::Arr(adts)),
        ("unsafe", J::Arr(uns)),
        ("types", J::Arr(std::mem::take(&mut cx.types))),
        ("bodies", J::Arr(bodies)),
    ])
}
