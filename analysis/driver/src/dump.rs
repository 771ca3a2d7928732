use crate::json::J;
use crate::{arr, obj};
use rustc_hir::def::{CtorOf, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, AllocRange, ConstAllocation, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, Body, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_span::Span;
use std::collections::HashMap;

struct Pre<'tcx> {
    body: Body<'tcx>,
    promoted: Vec<Body<'tcx>>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    pre: HashMap<DefId, Pre<'tcx>>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance<'tcx>, usize>,
    work: Vec<(Instance<'tcx>, TypingEnv<'tcx>)>,
    statics: HashMap<DefId, ()>,
    static_out: Vec<J>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx {
        tcx,
        pre: HashMap::new(),
        tys: HashMap::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        work: vec![],
        statics: HashMap::new(),
        static_out: vec![],
    };
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    for d in owners.iter() {
        let (body, promoted) = tcx.mir_promoted(*d);
        if body.is_stolen() {
            continue;
        }
        let pre = Pre {
            body: body.borrow().clone(),
            promoted: promoted.borrow().iter().cloned().collect(),
        };
        cx.pre.insert(d.to_def_id(), pre);
    }
    let mut roots = vec![];
    for d in owners.iter() {
        let did = d.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                let env = TypingEnv::post_analysis(tcx, did);
                let id = cx.inst(Instance::new_raw(did, args), env);
                roots.push(J::from(id));
            }
            DefKind::Static { .. } => cx.static_(did),
            _ => {}
        }
    }
    let mut bodies = vec![];
    let mut done = 0;
    while done < cx.work.len() {
        let (inst, env) = cx.work[done];
        bodies.push(cx.body(inst, env));
        done += 1;
    }
    let errors = tcx.dcx().has_errors().is_some();
    let out = obj! {"crate": tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string(),
        "errors": errors, "roots": J::Arr(roots), "bodies": J::Arr(bodies),
        "types": J::Arr(std::mem::take(&mut cx.ty_out)), "statics": J::Arr(std::mem::take(&mut cx.static_out))};
    let mut s = String::new();
    out.write(&mut s);
    s
}

impl<'tcx> Cx<'tcx> {
    fn inst(&mut self, mut i: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        // lifetimes make no difference to a body: one entry for all of them
        i.args = self.tcx.erase_and_anonymize_regions(i.args);
        if let Some(n) = self.insts.get(&i) {
            return *n;
        }
        let n = self.work.len();
        self.insts.insert(i, n);
        self.work.push((i, env));
        n
    }

    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        J::from(format!("{}:{}:{}", f, l.line, l.col.0 + 1))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(n) = self.tys.get(&t) {
            return *n;
        }
        let n = self.ty_out.len();
        self.tys.insert(t, n);
        self.ty_out.push(J::Null);
        let s = with_no_trimmed_paths!(t.to_string());
        let tcx = self.tcx;
        let j = match t.kind() {
            ty::Adt(def, args) => {
                let p = path(tcx, def.did());
                let krate = tcx.crate_name(def.did().krate).to_string();
                let targs: Vec<J> = args.types().map(|t| J::from(self.ty(t))).collect();
                let known = [
                    "std::option::Option",
                    "std::result::Result",
                    "std::ops::ControlFlow",
                    "std::task::Poll",
                    "std::cmp::Ordering",
                    "std::ops::Range",
                    "std::ops::RangeFrom",
                    "std::ops::RangeTo",
                    "std::ops::RangeToInclusive",
                    "std::ops::RangeFull",
                    "std::ops::Bound",
                    "std::pin::Pin",
                    "std::convert::Infallible",
                    "std::borrow::Cow",
                ];
                let expand = ["hypercore", "replicator"].contains(&krate.as_str())
                    || def.did().is_local()
                    || known.contains(&p.as_str());
                let mut vs = vec![];
                if expand && !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(
                                    TypingEnv::fully_monomorphized(),
                                    ft,
                                )
                                .unwrap_or(f.ty(tcx, args).skip_norm_wip());
                            fs.push(arr![f.name.to_string(), self.ty(ft)]);
                        }
                        let discr = if def.is_enum() {
                            J::Int(def.discriminant_for_variant(tcx, vi).val as i128)
                        } else {
                            J::Int(0)
                        };
                        vs.push(obj! {"name": v.name.to_string(), "discr": discr, "fields": J::Arr(fs)});
                    }
                }
                obj! {"k": "adt", "s": s, "path": p, "args": J::Arr(targs), "enum": def.is_enum(),
                "variants": if expand { J::Arr(vs) } else { J::Null }}
            }
            ty::Ref(_, t, m) => {
                obj! {"k": "ref", "s": s, "to": self.ty(*t), "mut": m.is_mut()}
            }
            ty::RawPtr(t, m) => {
                obj! {"k": "ptr", "s": s, "to": self.ty(*t), "mut": m.is_mut()}
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| J::from(self.ty(t))).collect();
                obj! {"k": "tuple", "s": s, "elems": J::Arr(v)}
            }
            ty::Slice(t) => obj! {"k": "slice", "s": s, "to": self.ty(*t)},
            ty::Array(t, n) => {
                let len = n.try_to_target_usize(tcx).map(|x| x as usize);
                obj! {"k": "array", "s": s, "to": self.ty(*t), "len": len}
            }
            ty::Closure(d, args) => {
                let v: Vec<J> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| J::from(self.ty(t)))
                    .collect();
                obj! {"k": "closure", "s": s, "path": path(tcx, *d), "upvars": J::Arr(v)}
            }
            ty::Coroutine(d, args) => {
                let v: Vec<J> = args
                    .as_coroutine()
                    .upvar_tys()
                    .iter()
                    .map(|t| J::from(self.ty(t)))
                    .collect();
                obj! {"k": "coroutine", "s": s, "path": path(tcx, *d), "upvars": J::Arr(v)}
            }
            ty::FnDef(d, _) => obj! {"k": "fndef", "s": s, "path": path(tcx, *d)},
            ty::FnPtr(..) => obj! {"k": "fnptr", "s": s},
            ty::Dynamic(..) => obj! {"k": "dyn", "s": s},
            ty::Param(_) => obj! {"k": "param", "s": s},
            ty::Int(_) | ty::Uint(_) => obj! {"k": "int", "s": s},
            ty::Bool => obj! {"k": "bool", "s": s},
            ty::Str => obj! {"k": "str", "s": s},
            ty::Char => obj! {"k": "char", "s": s},
            ty::Never => obj! {"k": "never", "s": s},
            _ => obj! {"k": "other", "s": s},
        };
        self.ty_out[n] = j;
        n
    }

    /// type of the instance's body after substitution
    fn sub(&self, i: &Instance<'tcx>, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
        i.try_instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            env,
            ty::EarlyBinder::bind(self.tcx, t),
        )
        .unwrap_or_else(|_| {
            ty::EarlyBinder::bind(self.tcx, t)
                .instantiate(self.tcx, i.args)
                .skip_norm_wip()
        })
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let p = path(tcx, d);
        let targs: Vec<J> = args.types().map(|t| J::from(self.ty(t))).collect();
        let tr = tcx.trait_of_assoc(d).map(|t| path(tcx, t));
        let name = tcx.opt_item_name(d).map(|x| x.to_string());
        let mut base: Vec<(&'static str, J)> = vec![
            ("path", J::from(p)),
            ("args", J::Arr(targs)),
            ("trait", J::from(tr.clone())),
            ("name", J::from(name)),
        ];
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, variant) = match of {
                CtorOf::Struct => (parent, 0),
                CtorOf::Variant => {
                    let adt = tcx.parent(parent);
                    (
                        adt,
                        tcx.adt_def(adt).variant_index_with_id(parent).as_usize(),
                    )
                }
            };
            let t = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
            let t = self.ty(t);
            base.push(("ctor", arr![t, variant]));
            return J::Obj(base);
        }
        if let Some(t) = &tr {
            if ["std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"].contains(&t.as_str()) {
                let st = args.type_at(0).peel_refs();
                match st.kind() {
                    ty::Closure(cd, cargs) => {
                        let i = Instance::new_raw(*cd, cargs);
                        if self.pre.contains_key(cd) {
                            let id = self.inst(i, env);
                            base.push(("closure", J::from(id)));
                        }
                        return J::Obj(base);
                    }
                    ty::FnDef(fd, fargs) => {
                        let fargs = fargs.no_bound_vars().unwrap_or_else(|| ty::List::empty());
                        let c = self.callee(env, *fd, fargs);
                        base.push(("fnval", c));
                        return J::Obj(base);
                    }
                    _ => {
                        base.push(("dyncall", J::from(true)));
                        return J::Obj(base);
                    }
                }
            }
        }
        let res = Instance::try_resolve(tcx, env, d, args);
        if let Ok(Some(i)) = res {
            let rp = path(tcx, i.def.def_id());
            base.push(("rpath", J::from(rp)));
            if tcx.trait_of_assoc(d).is_some() {
                if let Some(im) = tcx.impl_of_assoc(i.def.def_id()) {
                    let st = tcx.type_of(im).instantiate(tcx, i.args);
                    let st = tcx
                        .try_normalize_erasing_regions(env, st)
                        .unwrap_or(st.skip_norm_wip());
                    let st = self.ty(st);
                    base.push(("self", J::from(st)));
                }
            }
            match i.def {
                InstanceKind::Item(rd) => {
                    if self.pre.contains_key(&rd) {
                        let id = self.inst(i, env);
                        base.push(("inst", J::from(id)));
                    }
                }
                InstanceKind::Virtual(..) => base.push(("virtual", J::from(true))),
                InstanceKind::Intrinsic(..) => base.push(("intrinsic", J::from(true))),
                _ => base.push(("shim", J::from(true))),
            }
        }
        J::Obj(base)
    }

    fn static_(&mut self, d: DefId) {
        if self.statics.insert(d, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let v = match tcx.eval_static_initializer(d) {
            Ok(alloc) => self.read_alloc(alloc, 0, t),
            Err(_) => J::Null,
        };
        let tid = self.ty(t);
        let p = path(tcx, d);
        self.static_out.push(obj! {"path": p, "ty": tid, "val": v, "span": self.span(tcx.def_span(d))});
    }

    fn read_alloc(&mut self, alloc: ConstAllocation<'tcx>, off: u64, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let a = alloc.inner();
        let size = |n: u64| AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(n) };
        match t.kind() {
            ty::Uint(_) | ty::Int(_) | ty::Bool => {
                let n = match tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                    Ok(l) => l.size.bytes(),
                    Err(_) => return J::Null,
                };
                match a.read_scalar(&tcx, size(n), false) {
                    Ok(Scalar::Int(i)) => {
                        let bits = i.to_bits(i.size()) as i128;
                        if t.is_bool() { obj! {"bool": bits != 0} } else { obj! {"int": J::Int(bits)} }
                    }
                    _ => J::Null,
                }
            }
            ty::Array(e, n) if *e == tcx.types.u8 => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                bytes(b)
            }
            ty::Ref(_, to, _) => {
                let p = match a.read_scalar(&tcx, size(8), true) {
                    Ok(Scalar::Ptr(p, _)) => p,
                    _ => return J::Null,
                };
                let (prov, o) = p.into_raw_parts();
                let len = match to.kind() {
                    ty::Str | ty::Slice(_) => {
                        let r = AllocRange { start: rustc_abi::Size::from_bytes(off + 8), size: rustc_abi::Size::from_bytes(8) };
                        match a.read_scalar(&tcx, r, false) {
                            Ok(Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                self.pointee(prov.alloc_id(), o.bytes(), *to, len)
            }
            _ => J::Null,
        }
    }

    fn pointee(&mut self, id: AllocId, off: u64, to: Ty<'tcx>, len: Option<u64>) -> J {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => {
                self.static_(d);
                obj! {"static": path(self.tcx, d)}
            }
            GlobalAlloc::Memory(m) => match (to.kind(), len) {
                (ty::Str, Some(n)) => {
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                    obj! {"ref": obj!{"str": String::from_utf8_lossy(b).to_string()}}
                }
                (ty::Slice(e), Some(n)) if *e == self.tcx.types.u8 => {
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                    obj! {"ref": bytes(b)}
                }
                _ => {
                    let j = self.read_alloc(m, off, to);
                    obj! {"ref": j}
                }
            },
            _ => J::Null,
        }
    }

    fn constant(&mut self, i: &Instance<'tcx>, env: TypingEnv<'tcx>, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = self.sub(i, env, c.const_.ty());
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| ty::List::empty());
            let f = self.callee(env, *d, args);
            return obj! {"k": "const", "ty": tid, "fn": f};
        }
        if let mir::Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                return obj! {"k": "const", "ty": tid, "promoted": p.as_usize()};
            }
        }
        let cst = i
            .try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, c.const_))
            .unwrap_or(c.const_);
        let val = match cst.eval(tcx, env, c.span) {
            Ok(v) => v,
            Err(_) => return obj! {"k": "const", "ty": tid},
        };
        let name = match cst {
            mir::Const::Unevaluated(uv, _) => Some(path(tcx, uv.def)),
            _ => None,
        };
        let v = match val {
            mir::ConstValue::ZeroSized => obj! {"zst": true},
            mir::ConstValue::Scalar(Scalar::Int(x)) => {
                let bits = x.to_bits(x.size());
                match t.kind() {
                    ty::Bool => obj! {"bool": bits != 0},
                    ty::Int(_) => {
                        let s = x.size().sign_extend(bits);
                        obj! {"int": J::Int(s)}
                    }
                    _ => obj! {"int": J::Int(bits as i128)},
                }
            }
            mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, o) = p.into_raw_parts();
                match t.kind() {
                    ty::Ref(_, to, _) => self.pointee(prov.alloc_id(), o.bytes(), *to, None),
                    ty::RawPtr(to, _) => self.pointee(prov.alloc_id(), o.bytes(), *to, None),
                    _ => J::Null,
                }
            }
            mir::ConstValue::Slice { .. } => match val.try_get_slice_bytes_for_diagnostics(tcx) {
                Some(b) => match t.kind() {
                    ty::Ref(_, to, _) if to.is_str() => {
                        obj! {"ref": obj!{"str": String::from_utf8_lossy(b).to_string()}}
                    }
                    _ => obj! {"ref": bytes(b)},
                },
                None => J::Null,
            },
            mir::ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(m) => self.read_alloc(m, offset.bytes(), t),
                _ => J::Null,
            },
        };
        obj! {"k": "const", "ty": tid, "val": v, "name": name}
    }

    fn place(&mut self, i: &Instance<'tcx>, env: TypingEnv<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => arr!["d"],
                ProjectionElem::Field(f, t) => {
                    let t = self.sub(i, env, t);
                    let t = self.ty(t);
                    arr!["f", f.as_usize(), t]
                }
                ProjectionElem::Index(l) => arr!["i", l.as_usize()],
                ProjectionElem::ConstantIndex { offset, from_end, .. } => arr!["c", offset as usize, from_end],
                ProjectionElem::Subslice { from, to, from_end } => arr!["s", from as usize, to as usize, from_end],
                ProjectionElem::Downcast(_, vi) => arr!["v", vi.as_usize()],
                _ => arr!["?"],
            });
        }
        arr![p.local.as_usize(), J::Arr(v)]
    }

    fn operand(&mut self, i: &Instance<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => obj! {"k": "copy", "p": self.place(i, env, p)},
            Operand::Move(p) => obj! {"k": "move", "p": self.place(i, env, p)},
            Operand::Constant(c) => self.constant(i, env, c),
            _ => obj! {"k": "const", "val": obj!{"bool": true}},
        }
    }

    fn rvalue(&mut self, i: &Instance<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => obj! {"k": "use", "o": self.operand(i, env, o)},
            Rvalue::CopyForDeref(p) => obj! {"k": "use", "o": obj!{"k": "copy", "p": self.place(i, env, p)}},
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as usize);
                obj! {"k": "repeat", "o": self.operand(i, env, o), "n": n}
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                let fake = matches!(bk, mir::BorrowKind::Fake(_));
                obj! {"k": "ref", "mut": m, "fake": fake, "p": self.place(i, env, p)}
            }
            Rvalue::RawPtr(_, p) => obj! {"k": "ref", "mut": true, "fake": false, "p": self.place(i, env, p)},
            Rvalue::Cast(k, o, t) => {
                let t = self.sub(i, env, *t);
                let t = self.ty(t);
                obj! {"k": "cast", "kind": format!("{k:?}"), "o": self.operand(i, env, o), "ty": t}
            }
            Rvalue::BinaryOp(op, ab) => {
                obj! {"k": "bin", "op": format!("{op:?}"), "a": self.operand(i, env, &ab.0), "b": self.operand(i, env, &ab.1)}
            }
            Rvalue::UnaryOp(op, a) => {
                obj! {"k": "un", "op": format!("{op:?}"), "a": self.operand(i, env, a)}
            }
            Rvalue::Discriminant(p) => obj! {"k": "discr", "p": self.place(i, env, p)},
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(i, env, o)).collect();
                let kind = match &**k {
                    mir::AggregateKind::Array(_) => obj! {"k": "array"},
                    mir::AggregateKind::Tuple => obj! {"k": "tuple"},
                    mir::AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.sub(i, env, t);
                        let t = self.ty(t);
                        obj! {"k": "adt", "ty": t, "variant": vi.as_usize()}
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.sub(i, env, t);
                        let id = match t.kind() {
                            ty::Closure(d, a) if self.pre.contains_key(d) => {
                                let inst = Instance::new_raw(*d, a);
                                Some(self.inst(inst, env))
                            }
                            _ => None,
                        };
                        let t = self.ty(t);
                        obj! {"k": "closure", "ty": t, "inst": id}
                    }
                    mir::AggregateKind::Coroutine(d, args) => {
                        let t = Ty::new_coroutine(self.tcx, *d, args);
                        let t = self.sub(i, env, t);
                        let id = match t.kind() {
                            ty::Coroutine(d, a) if self.pre.contains_key(d) => {
                                let inst = Instance::new_raw(*d, a);
                                Some(self.inst(inst, env))
                            }
                            _ => None,
                        };
                        let t = self.ty(t);
                        obj! {"k": "coroutine", "ty": t, "inst": id}
                    }
                    mir::AggregateKind::RawPtr(..) => obj! {"k": "rawptr"},
                    _ => obj! {"k": "other"},
                };
                obj! {"k": "agg", "kind": kind, "ops": J::Arr(os)}
            }
            _ => obj! {"k": "other", "s": format!("{r:?}")},
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let (b, promoted) = {
            let p = &self.pre[&d];
            (p.body.clone(), p.promoted.clone())
        };
        let kind = if tcx.is_coroutine(d) {
            "coroutine"
        } else if tcx.is_closure_like(d) {
            "closure"
        } else {
            "fn"
        };
        let vis = if kind == "fn" { tcx.visibility(d).is_public() } else { false };
        let targs: Vec<J> = inst.args.types().map(|t| J::from(self.ty(t))).collect();
        let impl_trait = tcx.trait_impl_of_assoc(d).map(|im| path(tcx, tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip().def_id));
        let self_ty = match tcx.impl_of_assoc(d) {
            Some(im) => {
                let t = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                Some(self.ty(t))
            }
            None => None,
        };
        let main = self.one(&inst, env, &b);
        let mut ps = vec![];
        for p in promoted.iter() {
            ps.push(self.one(&inst, env, p));
        }
        let abi = if kind == "fn" {
            let a = tcx.fn_sig(d).skip_binder().abi();
            format!("{a}")
        } else {
            String::new()
        };
        let unsafe_ = b.tainted_by_errors.is_some();
        let from_expn = tcx.def_span(d).from_expansion();
        let name = tcx.opt_item_name(d).map(|x| x.to_string());
        obj! {"path": path(tcx, d), "name": name, "kind": kind, "pub": vis, "args": J::Arr(targs), "trait": impl_trait,
        "selfty": self_ty, "abi": abi, "tainted": unsafe_, "expn": from_expn, "span": self.span(tcx.def_span(d)), "mir": main, "promoted": J::Arr(ps)}
    }

    fn one(&mut self, inst: &Instance<'tcx>, env: TypingEnv<'tcx>, b: &Body<'tcx>) -> J {
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            let t = self.sub(inst, env, l.ty);
            locals.push(J::from(self.ty(t)));
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                names.push(arr![v.name.to_string(), self.place(inst, env, p)]);
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        if let Rvalue::Ref(_, mir::BorrowKind::Fake(_), _) = r {
                            continue;
                        }
                        st.push(arr!["=", self.place(inst, env, p), self.rvalue(inst, env, r), self.span(s.source_info.span)]);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(arr!["sd", self.place(inst, env, place), variant_index.as_usize()]);
                    }
                    StatementKind::StorageLive(l) => st.push(arr!["sl", l.as_usize()]),
                    StatementKind::StorageDead(l) => st.push(arr!["dead", l.as_usize()]),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => arr!["goto", target.as_usize()],
                TerminatorKind::FalseEdge { real_target, .. } => arr!["goto", real_target.as_usize()],
                TerminatorKind::FalseUnwind { real_target, .. } => arr!["goto", real_target.as_usize()],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, tcx_of(self));
                    let ty = self.sub(inst, env, ty);
                    let tid = self.ty(ty);
                    let signed = ty.is_signed();
                    let bits = match ty.kind() {
                        ty::Int(it) => it.bit_width().unwrap_or(64),
                        _ => 128,
                    };
                    let ts: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| {
                            let v = if signed && bits < 128 && v >= (1u128 << (bits - 1)) {
                                (v as i128) - (1i128 << bits)
                            } else {
                                v as i128
                            };
                            arr![J::Int(v), t.as_usize()]
                        })
                        .collect();
                    arr!["switch", self.operand(inst, env, discr), J::Arr(ts), targets.otherwise().as_usize(), tid, sp]
                }
                TerminatorKind::Return => arr!["return", sp],
                TerminatorKind::Unreachable => arr!["unreachable"],
                TerminatorKind::Drop { place, target, .. } => {
                    arr!["drop", self.place(inst, env, place), target.as_usize(), sp]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(inst, env, func);
                    let a: Vec<J> = args.iter().map(|a| self.operand(inst, env, &a.node)).collect();
                    let tg = target.map(|t| t.as_usize());
                    arr!["call", f, J::Arr(a), self.place(inst, env, destination), tg, sp]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    let m = m.split('(').next().unwrap_or("").to_string();
                    let kind = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                        _ => m,
                    };
                    arr!["assert", self.operand(inst, env, cond), *expected, kind, target.as_usize(), sp]
                }
                TerminatorKind::Yield { resume, .. } => arr!["yield", resume.as_usize()],
                other => arr!["other", format!("{other:?}")],
            };
            blocks.push(obj! {"s": J::Arr(st), "t": tj});
        }
        obj! {"nargs": b.arg_count, "locals": J::Arr(locals), "names": J::Arr(names), "blocks": J::Arr(blocks), "span": self.span(b.span),
         "spread": b.spread_arg.map(|l| l.as_usize())}
    }
}

fn tcx_of<'tcx>(c: &Cx<'tcx>) -> TyCtxt<'tcx> {
    c.tcx
}

fn bytes(b: &[u8]) -> J {
    obj! {"bytes": J::Arr(b.iter().map(|x| J::Int(*x as i128)).collect())}
}
