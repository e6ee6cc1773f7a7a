use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: HashMap<DefId, String>,
    adt_out: Vec<(String, J)>,
    adt_queue: Vec<DefId>,
    seen: HashMap<String, ()>,
    queue: VecDeque<(String, Instance<'tcx>)>,
    fns: Vec<(String, J)>,
}

macro_rules! pr {
    ($e:expr) => {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!($e)))
    };
}

fn obj(v: Vec<(&'static str, J)>) -> J {
    J::Obj(v)
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        pr!(self.tcx.def_path_str(d))
    }

    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::s(format!("{}:{}", f, lo.line))
    }

    /// Normalised name: `Trait::method`, `adt::path::method`, `str::len`, `free::function`.
    fn norm_name(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if let Some(im) = tcx.impl_of_assoc(d) {
            let self_ty = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let base = self.head(self_ty);
            let nm = tcx.item_name(d);
            if tcx.trait_impl_of_assoc(d).is_some() {
                let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                return format!("<{} as {}>::{}", base, self.path(tr.def_id), nm);
            }
            return format!("{}::{}", base, nm);
        }
        self.path(d)
    }

    fn head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.head(*t)),
            ty::Slice(_) => "slice".into(),
            ty::Array(..) => "array".into(),
            ty::Tuple(_) => "tuple".into(),
            ty::RawPtr(..) => "ptr".into(),
            ty::Param(_) => "T".into(),
            ty::Closure(d, _) => self.path(*d),
            _ => pr!(format!("{}", t)),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::Int(self.tyid(t) as i128)
    }

    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let s = pr!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![];
        let k = match t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(i) => {
                o.push(("bits", J::Int(i.bit_width().unwrap_or(64) as i128)));
                "int"
            }
            ty::Uint(i) => {
                o.push(("bits", J::Int(i.bit_width().unwrap_or(64) as i128)));
                "uint"
            }
            ty::Float(_) => "float",
            ty::Adt(a, args) => {
                o.push(("path", J::s(self.path(a.did()))));
                let v = self.gargs(args);
                o.push(("args", v));
                if !self.adts.contains_key(&a.did()) {
                    let p = self.path(a.did());
                    self.adts.insert(a.did(), p);
                    self.adt_queue.push(a.did());
                }
                "adt"
            }
            ty::Str => "str",
            ty::Array(e, n) => {
                let e = self.ty(*e);
                o.push(("elem", e));
                let n = n.try_to_target_usize(self.tcx).map(|x| J::Int(x as i128)).unwrap_or(J::Null);
                o.push(("len", n));
                "array"
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                o.push(("elem", e));
                "slice"
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                o.push(("to", e));
                o.push(("mut", J::Bool(m.is_mut())));
                "ptr"
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                o.push(("to", e));
                o.push(("mut", J::Bool(m.is_mut())));
                "ref"
            }
            ty::FnDef(d, args) => {
                let f = self.fnref(*d, args.skip_binder());
                o.push(("fn", f));
                "fndef"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Closure(d, args) => {
                let key = self.enqueue(Instance::new_raw(*d, args));
                o.push(("key", J::s(key)));
                let kind = args.as_closure().kind_ty().to_opt_closure_kind();
                o.push(("ckind", J::s(format!("{:?}", kind))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("upvars", J::Arr(ups)));
                "closure"
            }
            ty::Never => "never",
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("elems", J::Arr(v)));
                "tuple"
            }
            ty::Param(p) => {
                o.push(("name", J::s(p.name.to_string())));
                "param"
            }
            ty::Dynamic(..) => "dyn",
            ty::Alias(..) => "alias",
            _ => "other",
        };
        let mut v = vec![("k", J::s(k)), ("s", J::s(s))];
        v.extend(o);
        self.ty_out[id] = obj(v);
        id
    }

    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(J::s(format!("const {}", pr!(format!("{}", c))))),
                _ => {}
            }
        }
        J::Arr(v)
    }

    fn key(&self, i: Instance<'tcx>) -> String {
        let d = i.def_id();
        let mut s = pr!(self.tcx.def_path_str_with_args(d, i.args));
        // closures: disambiguate by parent's instantiation
        if self.tcx.is_closure_like(d) {
            let base = self.tcx.typeck_root_def_id(d);
            let n = self.tcx.generics_of(base).count();
            let bargs = self.tcx.mk_args(&i.args[..n.min(i.args.len())]);
            let parent = pr!(self.tcx.def_path_str_with_args(base, bargs));
            let full = pr!(self.tcx.def_path_str(d));
            let root = pr!(self.tcx.def_path_str(base));
            let suffix = full.strip_prefix(&root).unwrap_or(&full).to_string();
            s = format!("{}{}", parent, suffix);
        }
        s
    }

    fn enqueue(&mut self, i: Instance<'tcx>) -> String {
        let k = self.key(i);
        if i.def_id().is_local() && !self.seen.contains_key(&k) {
            if self.tcx.is_mir_available(i.def_id()) && self.tcx.def_kind(i.def_id()).is_fn_like() {
                self.seen.insert(k.clone(), ());
                self.queue.push_back((k.clone(), i));
            }
        }
        k
    }

    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("name", J::s(self.norm_name(d))));
        let a = self.gargs(args);
        o.push(("args", a));
        if tcx.is_constructor(d) {
            let vd = match tcx.def_kind(d) {
                DefKind::Ctor(rustc_hir::def::CtorOf::Variant, _) => {
                    let v = tcx.parent(d);
                    let e = tcx.parent(v);
                    let adt = tcx.adt_def(e);
                    (e, adt.variant_index_with_id(v).as_usize())
                }
                _ => (tcx.parent(d), 0),
            };
            o.push(("ctor", J::Arr(vec![J::s(self.path(vd.0)), J::Int(vd.1 as i128)])));
            return obj(o);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.path(tr))));
            if args.len() > 0 {
                if let Some(t) = args[0].as_type() {
                    let t = self.ty(t);
                    o.push(("self", t));
                }
            }
        }
        let env = TypingEnv::fully_monomorphized();
        let env2 = env;
        let has_param = args.has_param();
        let r = if has_param {
            // only inherent/free functions can be referenced without resolution
            let penv = TypingEnv::non_body_analysis(tcx, d);
            let _ = penv;
            if tcx.trait_of_assoc(d).is_none() {
                Some(Instance::new_raw(d, args))
            } else {
                None
            }
        } else {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env2, d, args))) {
                Ok(Ok(Some(i))) => Some(i),
                _ => None,
            }
        };
        if let Some(i) = r {
            match i.def {
                ty::InstanceKind::Item(_) => {
                    let rn = self.norm_name(i.def_id());
                    o.push(("res", J::s(rn)));
                    if i.def_id().is_local() {
                        let k = self.enqueue(i);
                        o.push(("key", J::s(k)));
                        if let Some(im) = tcx.impl_of_assoc(i.def_id()) {
                            if self.is_derived(im) {
                                o.push(("derived", J::Bool(true)));
                            }
                        }
                    } else {
                        o.push(("crate", J::s(tcx.crate_name(i.def_id().krate).to_string())));
                        let k = self.key(i);
                        o.push(("key", J::s(k)));
                    }
                }
                ref k => o.push(("shim", J::s(format!("{:?}", k).chars().take(200).collect::<String>()))),
            }
        }
        obj(o)
    }

    fn is_derived(&self, im: DefId) -> bool {
        self.tcx.is_automatically_derived(im)
    }

    fn local(&self, l: Local) -> J {
        J::Int(l.as_usize() as i128)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        for e in p.projection.iter() {
            proj.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![J::s("f"), J::Int(f.as_usize() as i128), t])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), self.local(l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("ci"),
                    J::Int(offset as i128),
                    J::Int(min_length as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("ss"), J::Int(from as i128), J::Int(to as i128), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![J::s("d"), J::Int(v.as_usize() as i128)]),
                _ => J::s("?"),
            });
        }
        J::Arr(vec![self.local(p.local), J::Arr(proj)])
    }

    fn operand(&mut self, o: &Operand<'tcx>, inst: Instance<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(p)]),
            Operand::Constant(c) => J::Arr(vec![J::s("k"), self.constant(&c.const_, inst, c.span)]),
            _ => J::Arr(vec![J::s("rt"), J::s(format!("{:?}", o))]),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, inst: Instance<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = vec![("ty", self.ty(t))];
        if let ty::FnDef(..) = t.kind() {
            return obj(o);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let k = format!("{}::promoted[{}]", self.key(inst), p.as_usize());
                o.push(("promoted", J::s(k.clone())));
                if u.def.is_local() && !self.seen.contains_key(&k) {
                    self.seen.insert(k.clone(), ());
                    let bodies = tcx.promoted_mir(u.def);
                    let body = bodies[p].clone();
                    let i2 = Instance::new_raw(u.def, u.args);
                    self.dump_body(k, i2, body, "promoted");
                }
                return obj(o);
            }
            o.push(("cpath", J::s(self.path(u.def))));
            if u.def.is_local() && matches!(tcx.def_kind(u.def), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let k = format!("{}::const", self.path(u.def));
                o.push(("cbody", J::s(k.clone())));
                if !self.seen.contains_key(&k) {
                    self.seen.insert(k.clone(), ());
                    let body = tcx.mir_for_ctfe(u.def).clone();
                    let i2 = Instance::new_raw(u.def, u.args);
                    self.dump_body(k, i2, body, "const");
                }
            }
        }
        let env = TypingEnv::fully_monomorphized();
        if c.has_param() {
            return obj(o);
        }
        let v = match c.eval(tcx, env, span) {
            Ok(v) => v,
            Err(_) => return obj(o),
        };
        self.const_value(v, t, &mut o);
        obj(o)
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let val: i128 = match t.kind() {
                    ty::Int(_) => i.to_int(sz),
                    _ => i.to_bits(sz) as i128,
                };
                o.push(("int", J::Int(val)));
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                    o.push(("static", J::s(self.path(d))));
                } else if let GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if let ty::Array(e, _) = inner.kind() {
                            if *e == tcx.types.u8 {
                                let a = m.inner();
                                let n = a.len();
                                let b = a
                                    .inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..n)
                                    .to_vec();
                                o.push(("bytes", J::Arr(b.into_iter().map(|x| J::Int(x as i128)).collect())));
                            }
                        }
                    }
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let a = a.inner();
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize).to_vec();
                if let ty::Ref(_, inner, _) = t.kind() {
                    match inner.kind() {
                        ty::Str => {
                            o.push(("str", J::s(String::from_utf8_lossy(&b).into_owned())));
                        }
                        ty::Slice(e) if *e == tcx.types.u8 => {
                            o.push(("bytes", J::Arr(b.into_iter().map(|x| J::Int(x as i128)).collect())));
                        }
                        _ => {}
                    }
                }
            }
            ConstValue::Indirect { .. } => o.push(("indirect", J::Bool(true))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, inst: Instance<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => J::Arr(vec![J::s("use"), self.operand(op, inst)]),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| J::Int(x as i128)).unwrap_or(J::Null);
                J::Arr(vec![J::s("repeat"), self.operand(op, inst), n])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::Arr(vec![J::s("ref"), J::Bool(m), self.place(p)])
            }
            Rvalue::RawPtr(_, p) => J::Arr(vec![J::s("ref"), J::Bool(true), self.place(p)]),
            Rvalue::Reborrow(_, m, p) => J::Arr(vec![J::s("ref"), J::Bool(m.is_mut()), self.place(p)]),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::Arr(vec![J::s("use"), J::Arr(vec![J::s("c"), p])])
            }
            Rvalue::Cast(k, op, t) => {
                let ks = format!("{:?}", k);
                let from = self.operand(op, inst);
                J::Arr(vec![J::s("cast"), J::s(ks), from, self.ty(*t)])
            }
            Rvalue::BinaryOp(b, ops) => {
                let a = self.operand(&ops.0, inst);
                let c = self.operand(&ops.1, inst);
                J::Arr(vec![J::s("bin"), J::s(format!("{:?}", b)), a, c])
            }
            Rvalue::UnaryOp(u, op) => {
                let a = self.operand(op, inst);
                J::Arr(vec![J::s("un"), J::s(format!("{:?}", u)), a])
            }
            Rvalue::Discriminant(p) => J::Arr(vec![J::s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o, inst)).collect();
                let kind = match &**k {
                    AggregateKind::Array(t) => J::Arr(vec![J::s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        J::Arr(vec![J::s("adt"), J::s(self.path(*d)), J::Int(v.as_usize() as i128), t])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        J::Arr(vec![J::s("closure"), self.ty(t)])
                    }
                    _ => J::Arr(vec![J::s("other")]),
                };
                J::Arr(vec![J::s("agg"), kind, J::Arr(v)])
            }
            _ => J::Arr(vec![J::s("other"), J::s(format!("{:?}", r))]),
        }
    }

    fn dump_body(&mut self, key: String, inst: Instance<'tcx>, body: Body<'tcx>, kind: &str) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let body = if inst.args.has_param() {
            body
        } else {
            inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                TypingEnv::fully_monomorphized(),
                ty::EarlyBinder::bind(tcx, body),
            )
        };
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let mut o = vec![("ty", self.ty(decl.ty))];
            if let Some(n) = names.get(&l.as_usize()) {
                o.push(("name", J::s(n.clone())));
            }
            locals.push(obj(o));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, inst);
                        st.push(J::Arr(vec![J::s("="), p, r, self.span(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::Arr(vec![J::s("sd"), p, J::Int(variant_index.as_usize() as i128)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbid = |b: &BasicBlock| J::Int(b.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![J::s("goto"), bbid(target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let op = self.operand(discr, inst);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<J> =
                        targets.iter().map(|(v, b)| J::Arr(vec![J::Int(v as i128), bbid(&b)])).collect();
                    J::Arr(vec![J::s("switch"), op, J::Arr(v), bbid(&targets.otherwise()), dt, sp])
                }
                TerminatorKind::Return => J::Arr(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::Arr(vec![J::s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    J::Arr(vec![J::s("drop"), p, bbid(target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, inst);
                    let a: Vec<J> = args.iter().map(|a| self.operand(&a.node, inst)).collect();
                    let dst = self.place(destination);
                    let tg = target.as_ref().map(|b| bbid(b)).unwrap_or(J::Null);
                    J::Arr(vec![J::s("call"), f, J::Arr(a), dst, tg, sp])
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(func, inst);
                    let a: Vec<J> = args.iter().map(|a| self.operand(&a.node, inst)).collect();
                    J::Arr(vec![J::s("tailcall"), f, J::Arr(a), sp])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, inst);
                    let (m, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("BoundsCheck".into(), vec![self.operand(len, inst), self.operand(index, inst)])
                        }
                        AssertKind::Overflow(b, x, y) => {
                            (format!("Overflow{:?}", b), vec![self.operand(x, inst), self.operand(y, inst)])
                        }
                        AssertKind::OverflowNeg(x) => ("OverflowNeg".into(), vec![self.operand(x, inst)]),
                        AssertKind::DivisionByZero(x) => ("DivisionByZero".into(), vec![self.operand(x, inst)]),
                        AssertKind::RemainderByZero(x) => ("RemainderByZero".into(), vec![self.operand(x, inst)]),
                        m => (format!("{:?}", m).split('(').next().unwrap_or("").to_string(), vec![]),
                    };
                    J::Arr(vec![J::s("assert"), c, J::Bool(*expected), J::s(m), J::Arr(ops), bbid(target), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![J::s("goto"), bbid(real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![J::s("goto"), bbid(real_target)]),
                k => J::Arr(vec![J::s("other"), J::s(format!("{:?}", k))]),
            };
            blocks.push(obj(vec![("s", J::Arr(st)), ("t", tj)]));
        }
        let mut o = vec![
            ("name", J::s(self.norm_name(d))),
            ("kind", J::s(kind)),
            ("span", self.span(tcx.def_span(d))),
            ("argc", J::Int(body.arg_count as i128)),
        ];
        if kind == "fn" {
            if !tcx.is_closure_like(d) {
                let g = tcx.generics_of(d);
                let names: Vec<J> = (0..g.count())
                    .map(|i| g.param_at(i, tcx))
                    .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                    .map(|p| J::s(p.name.to_string()))
                    .collect();
                o.push(("generics", J::Arr(names)));
            }
            if tcx.is_closure_like(d) {
                o.push(("closure", J::Bool(true)));
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", J::s(self.head(st))));
                if tcx.trait_impl_of_assoc(d).is_some() {
                    let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", J::s(self.path(tr.def_id))));
                }
                if self.is_derived(im) {
                    o.push(("derived", J::Bool(true)));
                }
            }
            let expn = tcx.def_span(d).from_expansion();
            o.push(("expn", J::Bool(expn)));
            o.push(("spread", body.spread_arg.map(|l| self.local(l)).unwrap_or(J::Null)));
            if !tcx.is_closure_like(d) {
                let vis = tcx.visibility(d).is_public();
                o.push(("pub", J::Bool(vis)));
                let reach = d.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
                o.push(("reach", J::Bool(reach)));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("unsafe", J::Bool(sig.safety().is_unsafe())));
            }
        }
        o.push(("locals", J::Arr(locals)));
        o.push(("blocks", J::Arr(blocks)));
        self.fns.push((key, obj(o)));
    }
}

struct UnsafeFinder<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    out: Vec<J>,
}
impl<'a, 'tcx> Visitor<'tcx> for UnsafeFinder<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.cx.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            let user = matches!(src, rustc_hir::UnsafeSource::UserProvided);
            self.out.push(obj(vec![
                ("span", self.cx.span(b.span)),
                ("user", J::Bool(user)),
                ("expn", J::Bool(b.span.from_expansion())),
                ("in", J::s(self.cx.path(b.hir_id.owner.to_def_id()))),
            ]));
        }
        intravisit::walk_block(self, b);
    }
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        adts: HashMap::new(),
        adt_out: vec![],
        adt_queue: vec![],
        seen: HashMap::new(),
        queue: VecDeque::new(),
        fns: vec![],
    };
    let mut statics = vec![];
    let mut impls = vec![];
    for ldid in tcx.hir_crate_items(()).definitions() {
        let d = ldid.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                if !tcx.is_mir_available(d) {
                    continue;
                }
                // trait default methods are dumped per implementation below
                if tcx.trait_of_assoc(d).is_some() {
                    continue;
                }
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                cx.enqueue(Instance::new_raw(d, args));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", J::s(cx.head(st))), ("span", cx.span(tcx.def_span(d)))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(cx.path(tr.def_id))));
                    o.push(("derived", J::Bool(cx.is_derived(d))));
                    o.push(("unsafe", J::Bool(tcx.trait_def(tr.def_id).safety.is_unsafe())));
                    if tr.def_id.is_local() && !tr.args.has_param() {
                        for it in tcx.associated_items(tr.def_id).in_definition_order() {
                            if it.is_fn() && it.defaultness(tcx).has_value() {
                                let g = tcx.generics_of(it.def_id);
                                if g.count() == tr.args.len() {
                                    if let Ok(Some(i)) = Instance::try_resolve(
                                        tcx,
                                        TypingEnv::fully_monomorphized(),
                                        it.def_id,
                                        tcx.erase_and_anonymize_regions(tr.args),
                                    ) {
                                        cx.enqueue(i);
                                    }
                                }
                            }
                        }
                    }
                }
                impls.push(obj(o));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(obj(vec![
                    ("path", J::s(cx.path(d))),
                    ("mut", J::Bool(mutability.is_mut())),
                    ("ty", J::s(pr!(format!("{}", t)))),
                    ("freeze", J::Bool(t.is_freeze(tcx, TypingEnv::fully_monomorphized()))),
                    ("span", cx.span(tcx.def_span(d))),
                    ("thread_local", J::Bool(tcx.is_thread_local_static(d))),
                ]));
            }
            _ => {}
        }
    }
    loop {
        while let Some((k, i)) = cx.queue.pop_front() {
            let body = tcx.instance_mir(i.def).clone();
            cx.dump_body(k, i, body, "fn");
        }
        while let Some(d) = cx.adt_queue.pop() {
            let a = tcx.adt_def(d);
            let p = cx.path(d);
            let mut vs = vec![];
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let interesting = d.is_local() || a.is_enum() || p.contains("ethabi");
            let discrs: Vec<i128> =
                if a.is_enum() { a.discriminants(tcx).map(|(_, d)| d.val as i128).collect() } else { vec![0] };
            for (vi, v) in a.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let mut fo = vec![("name", J::s(f.name.to_string()))];
                    if interesting {
                        let t = f.ty(tcx, args).skip_norm_wip();
                        let t = cx.ty(t);
                        fo.push(("ty", t));
                    }
                    fo.push(("pub", J::Bool(f.vis.is_public())));
                    fs.push(obj(fo));
                }
                vs.push(obj(vec![
                    ("name", J::s(v.name.to_string())),
                    ("discr", J::Int(*discrs.get(vi.as_usize()).unwrap_or(&0))),
                    ("fields", J::Arr(fs)),
                ]));
            }
            let kind = if a.is_enum() {
                "enum"
            } else if a.is_union() {
                "union"
            } else {
                "struct"
            };
            let generics: Vec<J> = tcx
                .generics_of(d)
                .own_params
                .iter()
                .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                .map(|p| J::s(p.name.to_string()))
                .collect();
            cx.adt_out.push((
                p,
                obj(vec![
                    ("kind", J::s(kind)),
                    ("local", J::Bool(d.is_local())),
                    ("variants", J::Arr(vs)),
                    ("generics", J::Arr(generics)),
                    ("span", cx.span(tcx.def_span(d))),
                ]),
            ));
        }
        if cx.queue.is_empty() && cx.adt_queue.is_empty() {
            break;
        }
    }
    // Send/Sync of public ADTs
    let mut autos = vec![];
    {
        use rustc_trait_selection::infer::InferCtxtExt;
        use rustc_infer::infer::TyCtxtInferExt;
        for ldid in tcx.hir_crate_items(()).definitions() {
            let d = ldid.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if t.has_param() {
                    continue;
                }
                let t = tcx.erase_and_anonymize_regions(t);
                let mut o = vec![("path", J::s(cx.path(d)))];
                let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::fully_monomorphized());
                if let Some(send) = tcx.get_diagnostic_item(rustc_span::sym::Send) {
                    o.push(("send", J::Bool(infcx.type_implements_trait(send, [t], penv).must_apply_modulo_regions())));
                }
                if let Some(sync) = tcx.lang_items().sync_trait() {
                    o.push(("sync", J::Bool(infcx.type_implements_trait(sync, [t], penv).must_apply_modulo_regions())));
                }
                o.push(("freeze", J::Bool(t.is_freeze(tcx, TypingEnv::fully_monomorphized()))));
                o.push(("reach", J::Bool(tcx.effective_visibilities(()).is_reachable(ldid))));
                autos.push(obj(o));
            }
        }
    }
    let mut uf = UnsafeFinder { cx: &cx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut uf);
    let unsafes = uf.out;
    obj(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("tys", J::Arr(cx.ty_out)),
        ("adts", J::Map(cx.adt_out)),
        ("statics", J::Arr(statics)),
        ("impls", J::Arr(impls)),
        ("unsafe", J::Arr(unsafes)),
        ("autos", J::Arr(autos)),
        ("fns", J::Map(cx.fns)),
    ])
}
