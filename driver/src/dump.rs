use crate::json::{q, W};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: FxHashMap<Ty<'tcx>, usize>,
    type_out: Vec<String>,
    bodies: FxHashMap<LocalDefId, mir::Body<'tcx>>,
    ext_adts: FxHashMap<DefId, ()>,
    adts_todo: Vec<DefId>,
    inst: FxHashMap<(DefId, GenericArgsRef<'tcx>), usize>,
    inst_list: Vec<Instance<'tcx>>,
    drop_cache: FxHashMap<Ty<'tcx>, Vec<usize>>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = with_no_trimmed_paths!(tcx.def_path_str(d));
    s
}

fn span_str(tcx: TyCtxt<'_>, s: Span) -> (String, usize, usize) {
    let s = s.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(s.lo());
    let hi = sm.lookup_char_pos(s.hi());
    let f = match &lo.file.name {
        rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| format!("{:?}", lo.file.name)),
        o => format!("{:?}", o),
    };
    (f, lo.line, hi.line)
}

fn line(tcx: TyCtxt<'_>, s: Span) -> usize {
    let s = s.source_callsite();
    if s.is_dummy() {
        return 0;
    }
    tcx.sess.source_map().lookup_char_pos(s.lo()).line
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(String::new());
        let s = with_no_trimmed_paths!(t.to_string());
        let mut o = format!("{{\"s\":{}", q(&s));
        match t.kind() {
            ty::Adt(def, args) => {
                self.note_adt(def.did());
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                o.push_str(&format!(",\"k\":\"adt\",\"p\":{},\"a\":[{}]", q(&path(self.tcx, def.did())), a.join(",")));
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(*x);
                o.push_str(&format!(",\"k\":\"ref\",\"m\":{},\"a\":[{}]", m.is_mut() as u8, x));
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(*x);
                o.push_str(&format!(",\"k\":\"ptr\",\"m\":{},\"a\":[{}]", m.is_mut() as u8, x));
            }
            ty::Slice(x) => {
                let x = self.ty(*x);
                o.push_str(&format!(",\"k\":\"slice\",\"a\":[{}]", x));
            }
            ty::Array(x, n) => {
                let n = n.try_to_target_usize(self.tcx);
                let x = self.ty(*x);
                o.push_str(&format!(",\"k\":\"array\",\"n\":{},\"a\":[{}]", n.map(|n| n.to_string()).unwrap_or("null".into()), x));
            }
            ty::Tuple(l) => {
                let a: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect();
                o.push_str(&format!(",\"k\":\"tuple\",\"a\":[{}]", a.join(",")));
            }
            ty::Closure(d, args) => {
                let a: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                o.push_str(&format!(",\"k\":\"closure\",\"p\":{},\"a\":[{}]", q(&path(self.tcx, *d)), a.join(",")));
            }
            ty::Coroutine(d, _) => {
                o.push_str(&format!(",\"k\":\"coroutine\",\"p\":{},\"a\":[]", q(&path(self.tcx, *d))));
            }
            ty::FnDef(d, _) => {
                o.push_str(&format!(",\"k\":\"fndef\",\"p\":{},\"a\":[]", q(&path(self.tcx, *d))));
            }
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\",\"a\":[]"),
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\",\"a\":[]"),
            ty::Param(_) => o.push_str(",\"k\":\"param\",\"a\":[]"),
            ty::Alias(..) => o.push_str(",\"k\":\"alias\",\"a\":[]"),
            ty::Never => o.push_str(",\"k\":\"never\",\"a\":[]"),
            _ => o.push_str(",\"k\":\"prim\",\"a\":[]"),
        }
        o.push('}');
        self.type_out[i] = o;
        i
    }

    fn note_adt(&mut self, d: DefId) {
        if self.ext_adts.insert(d, ()).is_none() {
            self.adts_todo.push(d);
        }
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        if p.projection.is_empty() {
            return format!("[{}]", p.local.as_u32());
        }
        let mut o = format!("[{}", p.local.as_u32());
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, tcx);
            match elem {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.as_u32().to_string();
                    let mut owner = String::new();
                    match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() || def.is_struct() || def.is_union() {
                                let v = def.variant(vi);
                                name = v.fields[f].name.to_string();
                                owner = path(tcx, def.did());
                                self.note_adt(def.did());
                                if def.is_enum() {
                                    owner = format!("{}::{}", owner, v.name);
                                }
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            owner = "closure".into();
                            if let Some(l) = d.as_local() {
                                let caps = tcx.closure_captures(l);
                                if let Some(c) = caps.get(f.as_usize()) {
                                    name = c.to_symbol().to_string();
                                }
                            }
                        }
                        _ => {}
                    }
                    o.push_str(&format!(",{{\"f\":{},\"n\":{},\"o\":{}}}", f.as_u32(), q(&name), q(&owner)));
                }
                ProjectionElem::Index(l) => o.push_str(&format!(",{{\"i\":{}}}", l.as_u32())),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    o.push_str(&format!(",{{\"ci\":{},\"e\":{},\"ml\":{}}}", offset, from_end as u8, min_length))
                }
                ProjectionElem::Subslice { from, to, from_end } => o.push_str(&format!(",{{\"ss\":[{},{}],\"e\":{}}}", from, to, from_end as u8)),
                ProjectionElem::Downcast(_, v) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) if def.is_enum() => def.variant(v).name.to_string(),
                        _ => String::new(),
                    };
                    o.push_str(&format!(",{{\"d\":{},\"n\":{}}}", v.as_u32(), q(&name)));
                }
                _ => o.push_str(",\"?\""),
            }
        }
        o.push(']');
        o
    }

    fn const_bits(&self, v: ConstValue, t: Ty<'tcx>) -> Option<u128> {
        if !(t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point()) {
            // newtype structs holding one scalar are scalars too
        }
        let s = v.try_to_scalar_int()?;
        Some(s.to_bits_unchecked())
    }

    /// elements of a constant array of scalars
    fn const_array(&self, v: ConstValue, t: Ty<'tcx>) -> Option<Vec<u128>> {
        let tcx = self.tcx;
        let ty::Array(x, n) = t.kind() else { return None };
        if !(x.is_integral() || x.is_bool() || x.is_floating_point()) {
            return None;
        }
        let n = n.try_to_target_usize(tcx)? as usize;
        let size = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(*x)).ok()?.size.bytes() as usize;
        if n == 0 || n > 256 || size == 0 || size > 16 {
            return None;
        }
        let ConstValue::Indirect { alloc_id, offset } = v else { return None };
        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
            let o = offset.bytes() as usize;
            let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n * size);
            return Some(bytes.chunks(size).map(|c| c.iter().enumerate().fold(0u128, |r, (i, b)| r | ((*b as u128) << (8 * i)))).collect());
        }
        None
    }

    fn const_str(&self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() || matches!(inner.kind(), ty::Slice(x) if *x == tcx.types.u8) {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                return Some(b.iter().take(400).map(|c| *c as char).collect());
            }
            if let ty::Array(x, n) = inner.kind() {
                if *x == tcx.types.u8 {
                    let n = n.try_to_target_usize(tcx)?;
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                            let o = off.bytes() as usize;
                            let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                            return Some(bytes.iter().take(400).map(|c| *c as char).collect());
                        }
                    }
                }
            }
        }
        None
    }

    /// value behind a constant reference to a small scalar (integer, bool or fieldless enum)
    fn ref_scalar(&self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<u128> {
        let tcx = self.tcx;
        let ty::Ref(_, inner, _) = t.kind() else { return None };
        let ok = match inner.kind() {
            ty::Adt(d, _) => d.is_enum() && d.is_payloadfree(),
            _ => inner.is_integral() || inner.is_bool(),
        };
        if !ok {
            return None;
        }
        let size = tcx.layout_of(env.as_query_input(*inner)).ok()?.size.bytes() as usize;
        if size == 0 || size > 16 {
            return None;
        }
        if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
            let (prov, off) = p.prov_and_relative_offset();
            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                let o = off.bytes() as usize;
                let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + size);
                let mut r = 0u128;
                for (i, b) in bytes.iter().enumerate() {
                    r |= (*b as u128) << (8 * i);
                }
                return Some(r);
            }
        }
        None
    }

    fn constant(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let a = with_no_trimmed_paths!(format!("{:?}", args.skip_binder().iter().filter(|x| x.as_region().is_none()).map(|x| x.to_string()).collect::<Vec<_>>()));
            return format!("{{\"fn\":{},\"ga\":{}}}", q(&path(tcx, *d)), q(&a));
        }
        let ti = self.ty(t);
        let mut o = format!("{{\"ty\":{}", ti);
        if let Const::Unevaluated(u, _) = c {
            o.push_str(&format!(",\"p\":{}", q(&path(tcx, u.def))));
            if let Some(pr) = u.promoted {
                o.push_str(&format!(",\"promoted\":{}", pr.as_u32()));
            }
        }
        let generic = c.has_non_region_param();
        if !generic {
            if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                if let Some(b) = self.const_bits(v, t) {
                    o.push_str(&format!(",\"v\":{}", b));
                } else if let Some(s) = self.const_str(v, t) {
                    o.push_str(&format!(",\"str\":{}", q(&s)));
                } else if let Some(b) = self.ref_scalar(v, t, env) {
                    o.push_str(&format!(",\"rv\":{}", b));
                } else if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                        o.push_str(&format!(",\"static\":{}", q(&path(tcx, d))));
                    }
                }
            }
        } else {
            o.push_str(",\"g\":1");
        }
        o.push('}');
        o
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, p: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match p {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(&c.const_, env)),
            _ => "{\"k\":{\"ty\":0,\"v\":0}}".to_string(),
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx);
                format!("[\"repeat\",{},{}]", self.operand(body, o, env), n.map(|n| n.to_string()).unwrap_or("null".into()))
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }) as u8, self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut() as u8, self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&path(tcx, *d))),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", matches!(k, RawPtrKind::Mut) as u8, self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ks = ks.split('(').next().unwrap_or("").to_string()
                    + if let CastKind::PointerCoercion(c, _) = k {
                        match c {
                            ty::adjustment::PointerCoercion::ReifyFnPointer(_) => ":reify",
                            ty::adjustment::PointerCoercion::ClosureFnPointer(_) => ":closure",
                            ty::adjustment::PointerCoercion::Unsize => ":unsize",
                            _ => "",
                        }
                    } else {
                        ""
                    };
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", q(&ks), self.operand(body, o, env), ti)
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(body, &ab.0, env);
                let b = self.operand(body, &ab.1, env);
                format!("[\"bin\",\"{:?}\",{},{}]", op, a, b)
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(body, a, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        self.note_adt(*d);
                        let def = tcx.adt_def(*d);
                        format!("{{\"adt\":{},\"v\":{},\"vn\":{},\"af\":{}}}", q(&path(tcx, *d)), v.as_u32(), q(def.variant(*v).name.as_str()), af.map(|f| f.as_u32().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::CoroutineClosure(d, _) => format!("{{\"closure\":{}}}", q(&path(tcx, *d))),
                    AggregateKind::Coroutine(d, _) => format!("{{\"coroutine\":{}}}", q(&path(tcx, *d))),
                    AggregateKind::RawPtr(..) => "\"rawptr\"".to_string(),
                };
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body_json(&mut self, id: usize, did: LocalDefId, body: &mir::Body<'tcx>) -> String {
        let tcx = self.tcx;
        let d = did.to_def_id();
        let kind = tcx.def_kind(d);
        let env = TypingEnv::post_analysis(tcx, did);
        let (file, lo, hi) = span_str(tcx, body.span);
        let mut o = format!("{{\"id\":{},\"path\":{},\"kind\":{},\"file\":{},\"lo\":{},\"hi\":{},\"argc\":{}", id, q(&path(tcx, d)), q(&format!("{:?}", kind)), q(&file), lo, hi, body.arg_count);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            o.push_str(&format!(",\"unsafe\":{},\"vis\":{}", (!sig.safety().is_safe()) as u8, q(&format!("{:?}", tcx.visibility(d)))));
            o.push_str(&format!(",\"async\":{}", tcx.asyncness(d).is_async() as u8));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = self.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip());
            o.push_str(&format!(",\"self\":{}", st));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.skip_binder();
                o.push_str(&format!(",\"trait\":{},\"traitref\":{}", q(&path(tcx, tr.def_id)), q(&with_no_trimmed_paths!(tr.to_string()))));
                if let Some(it) = tcx.associated_item(d).trait_item_def_id() {
                    o.push_str(&format!(",\"titem\":{}", q(&path(tcx, it))));
                }
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push_str(&format!(",\"deftrait\":{}", q(&path(tcx, tr))));
        }
        if let Some(p) = tcx.opt_parent(d) {
            if matches!(kind, DefKind::Closure) {
                o.push_str(&format!(",\"parent\":{}", q(&path(tcx, p))));
                if let Some(ck) = tcx.coroutine_kind(d) {
                    o.push_str(&format!(",\"cor\":{}", q(&format!("{:?}", ck))));
                }
            }
        }
        // user names of locals
        let mut names: FxHashMap<u32, String> = FxHashMap::default();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        o.push_str(",\"locals\":[");
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_u32() > 0 {
                o.push(',');
            }
            let t = self.ty(l.ty);
            match names.get(&i.as_u32()) {
                Some(n) => o.push_str(&format!("[{},{}]", t, q(n))),
                None => o.push_str(&format!("[{}]", t)),
            }
        }
        o.push_str("],");
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            // constants that were promoted out of the body: how they are built
            o.push_str("\"prom\":[");
            for (i, pb) in tcx.promoted_mir(d).iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push('[');
                if pb.basic_blocks.len() == 1 && pb.basic_blocks[START_BLOCK].statements.len() <= 16 {
                    let mut first = true;
                    for s in &pb.basic_blocks[START_BLOCK].statements {
                        if let StatementKind::Assign(a) = &s.kind {
                            let pl = self.place(pb, &a.0);
                            let rv = self.rvalue(pb, &a.1, env);
                            if !first {
                                o.push(',');
                            }
                            first = false;
                            o.push_str(&format!("[{},{}]", pl, rv));
                        }
                    }
                }
                o.push(']');
            }
            o.push_str("],");
        }
        o.push_str("\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 {
                o.push(',');
            }
            o.push_str(if b.is_cleanup { "{\"cl\":1,\"s\":[" } else { "{\"s\":[" });
            let mut first = true;
            for s in &b.statements {
                let js = match &s.kind {
                    StatementKind::Assign(a) => {
                        let pl = self.place(body, &a.0);
                        let rv = self.rvalue(body, &a.1, env);
                        format!("[\"=\",{},{},{}]", pl, rv, line(tcx, s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{}]", self.place(body, place), variant_index.as_u32())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_u32()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_u32()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&js);
            }
            o.push_str("],\"t\":");
            let t = b.terminator();
            let ln = line(tcx, t.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_u32().to_string(),
                _ => "null".into(),
            };
            match &t.kind {
                TerminatorKind::Goto { target, .. } => o.push_str(&format!("[\"goto\",{}]", target.as_u32())),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let op = self.operand(body, discr, env);
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                    o.push_str(&format!("[\"switch\",{},[{}],{},{}]", op, ts.join(","), targets.otherwise().as_u32(), ln));
                }
                TerminatorKind::UnwindResume => o.push_str("[\"resume\"]"),
                TerminatorKind::UnwindTerminate(_) => o.push_str("[\"abort\"]"),
                TerminatorKind::Return => o.push_str("[\"ret\"]"),
                TerminatorKind::Unreachable => o.push_str("[\"unreachable\"]"),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pl = self.place(body, place);
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let ti = self.ty(t);
                    o.push_str(&format!("[\"drop\",{},{},{},{},{}]", pl, target.as_u32(), uw(unwind), ti, ln));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(body, func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, &x.node, env)).collect();
                    let dst = self.place(body, destination);
                    o.push_str(&format!("[\"call\",{},[{}],{},{},{},{}]", f, a.join(","), dst, target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()), uw(unwind), ln));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, cond, env);
                    let (k, extra) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), format!("{},{}", self.operand(body, len, env), self.operand(body, index, env))),
                        AssertKind::Overflow(op, a, b) => (format!("ovf:{:?}", op), format!("{},{}", self.operand(body, a, env), self.operand(body, b, env))),
                        AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) => ("div0".into(), self.operand(body, a, env)),
                        _ => ("other".into(), String::new()),
                    };
                    o.push_str(&format!("[\"assert\",{},{},{},{},[{}],{}]", c, *expected as u8, q(&k), target.as_u32(), extra, ln));
                }
                TerminatorKind::Yield { value, resume, .. } => {
                    let v = self.operand(body, value, env);
                    o.push_str(&format!("[\"yield\",{},{},{}]", v, resume.as_u32(), ln));
                }
                TerminatorKind::FalseEdge { real_target, .. } => o.push_str(&format!("[\"goto\",{}]", real_target.as_u32())),
                TerminatorKind::FalseUnwind { real_target, .. } => o.push_str(&format!("[\"goto\",{}]", real_target.as_u32())),
                TerminatorKind::CoroutineDrop => o.push_str("[\"cordrop\"]"),
                _ => o.push_str("[\"other\"]"),
            }
            o.push('}');
        }
        o.push_str("]}");
        o
    }

    fn inst_id(&mut self, i: Instance<'tcx>) -> Option<usize> {
        let d = i.def_id();
        let l = d.as_local()?;
        if !self.bodies.contains_key(&l) {
            return None;
        }
        let args = self.tcx.erase_and_anonymize_regions(i.args);
        if let Some(x) = self.inst.get(&(d, args)) {
            return Some(*x);
        }
        let n = self.inst_list.len();
        self.inst.insert((d, args), n);
        self.inst_list.push(Instance { def: InstanceKind::Item(d), args });
        Some(n)
    }

    /// closures, coroutines and fn items of this crate that occur in a type
    fn callables_in(&mut self, t: Ty<'tcx>, seen: &mut FxHashSet<Ty<'tcx>>, out: &mut Vec<usize>, depth: usize) {
        if depth > 12 || !seen.insert(t) {
            return;
        }
        let tcx = self.tcx;
        match t.kind() {
            ty::Closure(d, args) => {
                if let Some(x) = self.inst_id(Instance { def: InstanceKind::Item(*d), args }) {
                    if !out.contains(&x) {
                        out.push(x);
                    }
                }
                for u in args.as_closure().upvar_tys() {
                    self.callables_in(u, seen, out, depth + 1);
                }
            }
            ty::Coroutine(d, args) => {
                if let Some(x) = self.inst_id(Instance { def: InstanceKind::Item(*d), args }) {
                    if !out.contains(&x) {
                        out.push(x);
                    }
                }
                for u in args.as_coroutine().upvar_tys() {
                    self.callables_in(u, seen, out, depth + 1);
                }
            }
            ty::FnDef(d, args) => {
                if let Ok(Some(i)) = Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), *d, args.no_bound_vars().unwrap_or(args.skip_binder())) {
                    if let Some(x) = self.inst_id(i) {
                        if !out.contains(&x) {
                            out.push(x);
                        }
                    }
                }
            }
            ty::Adt(_, args) => {
                for a in args.types() {
                    self.callables_in(a, seen, out, depth + 1);
                }
            }
            ty::Ref(_, x, _) | ty::RawPtr(x, _) | ty::Slice(x) | ty::Array(x, _) => self.callables_in(*x, seen, out, depth + 1),
            ty::Tuple(l) => {
                for x in l.iter() {
                    self.callables_in(x, seen, out, depth + 1);
                }
            }
            _ => {}
        }
    }

    fn drop_impls(&mut self, t: Ty<'tcx>) -> Vec<usize> {
        if let Some(v) = self.drop_cache.get(&t) {
            return v.clone();
        }
        let mut out = Vec::new();
        let mut seen = FxHashSet::default();
        self.drop_walk(t, &mut seen, &mut out, 0);
        self.drop_cache.insert(t, out.clone());
        out
    }
    fn drop_walk(&mut self, t: Ty<'tcx>, seen: &mut FxHashSet<Ty<'tcx>>, out: &mut Vec<usize>, depth: usize) {
        if depth > 25 || !seen.insert(t) {
            return;
        }
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(def, args) => {
                if def.is_manually_drop() {
                    return;
                }
                if def.is_phantom_data() {
                    return;
                }
                if let Some(dtor) = tcx.adt_destructor(def.did()) {
                    if dtor.did.is_local() {
                        // resolve the Drop impl's args
                        if let Ok(Some(i)) = Instance::try_resolve(
                            tcx,
                            TypingEnv::fully_monomorphized(),
                            tcx.associated_item_def_ids(tcx.require_lang_item(rustc_attr_ir::LangItem::Drop, rustc_span::DUMMY_SP))[0],
                            tcx.mk_args(&[t.into()]),
                        ) {
                            if let Some(x) = self.inst_id(i) {
                                if !out.contains(&x) {
                                    out.push(x);
                                }
                            }
                        }
                    }
                }
                if def.did().is_local() {
                    for f in def.all_fields() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ft);
                        if let Ok(ft) = ft {
                            self.drop_walk(ft, seen, out, depth + 1);
                        }
                    }
                } else {
                    for a in args.types() {
                        self.drop_walk(a, seen, out, depth + 1);
                    }
                }
            }
            ty::Slice(x) | ty::Array(x, _) => self.drop_walk(*x, seen, out, depth + 1),
            ty::Tuple(l) => {
                for x in l.iter() {
                    self.drop_walk(x, seen, out, depth + 1);
                }
            }
            ty::Closure(_, args) => {
                for u in args.as_closure().upvar_tys() {
                    self.drop_walk(u, seen, out, depth + 1);
                }
            }
            _ => {}
        }
    }

    fn resolve_callee(&mut self, fty: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match fty.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or(args.skip_binder());
                let r = Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), *d, args);
                let Ok(Some(i)) = r else {
                    return format!("{{\"x\":{}}}", q(&path(tcx, *d)));
                };
                let mut tgt = i;
                let mut kind = "";
                match i.def {
                    InstanceKind::Virtual(td, _) => {
                        return format!("{{\"virt\":{}}}", q(&path(tcx, td)));
                    }
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => {
                        // the receiver type is the closure
                        if let ty::Closure(cd, cargs) = i.args.type_at(0).kind() {
                            tgt = Instance { def: InstanceKind::Item(*cd), args: cargs };
                        }
                    }
                    InstanceKind::Shim(ShimKind::FnPtr(_, t)) => match t.kind() {
                        ty::FnDef(fd, fargs) => {
                            if let Ok(Some(x)) = Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), *fd, fargs.no_bound_vars().unwrap_or(fargs.skip_binder())) {
                                tgt = x;
                                kind = "shim";
                            }
                        }
                        _ => return format!("{{\"fnptr\":{}}}", self.ty(t)),
                    },
                    InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) => {
                        let v = self.drop_impls(t);
                        let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                        return format!("{{\"x\":\"drop_in_place\",\"may\":[{}]}}", v.join(","));
                    }
                    InstanceKind::Shim(ShimKind::Clone(..)) => {
                        return format!("{{\"x\":{},\"clone\":1}}", q(&path(tcx, i.def_id())));
                    }
                    _ => {}
                }
                if let Some(x) = self.inst_id(tgt) {
                    if kind.is_empty() {
                        format!("{{\"i\":{}}}", x)
                    } else {
                        format!("{{\"i\":{},\"shim\":1}}", x)
                    }
                } else {
                    let mut may = Vec::new();
                    let mut seen = FxHashSet::default();
                    for a in i.args.types() {
                        self.callables_in(a, &mut seen, &mut may, 0);
                    }
                    let may: Vec<String> = may.iter().map(|x| x.to_string()).collect();
                    let st = tgt.args.types().next().map(|t| self.ty(t));
                    let d = tgt.def_id();
                    // for impls: record the (concrete) Self type of the resolved call
                    let mut o = format!("{{\"x\":{}", q(&path(tcx, d)));
                    if let Some(imp) = tcx.impl_of_assoc(d) {
                        let selft = tcx.type_of(imp).instantiate(tcx, tgt.args);
                        if let Ok(s) = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), selft) {
                            let s = self.ty(s);
                            o.push_str(&format!(",\"self\":{}", s));
                        }
                    } else if let Some(st) = st {
                        o.push_str(&format!(",\"t0\":{}", st));
                    }
                    if !may.is_empty() {
                        o.push_str(&format!(",\"may\":[{}]", may.join(",")));
                    }
                    o.push('}');
                    o
                }
            }
            _ => {
                let t = self.ty(fty);
                format!("{{\"fnptr\":{}}}", t)
            }
        }
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut cx = Cx {
        tcx,
        types: Default::default(),
        type_out: vec![],
        bodies: Default::default(),
        ext_adts: Default::default(),
        adts_todo: vec![],
        inst: Default::default(),
        inst_list: vec![],
        drop_cache: Default::default(),
    };
    // 1. coroutine bodies before they are stolen
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| d.local_def_index);
    for &d in &keys {
        if tcx.is_coroutine(d.to_def_id()) {
            let b = tcx.mir_promoted(d).0.borrow().clone();
            cx.bodies.insert(d, b);
        }
    }
    for &d in &keys {
        if cx.bodies.contains_key(&d) {
            continue;
        }
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let s = tcx.mir_drops_elaborated_and_const_checked(d);
                let b = if s.is_stolen() { tcx.mir_for_ctfe(d).clone() } else { s.borrow().clone() };
                cx.bodies.insert(d, b);
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let b = tcx.mir_for_ctfe(d).clone();
                cx.bodies.insert(d, b);
            }
            _ => {}
        }
    }
    let mut order: Vec<LocalDefId> = cx.bodies.keys().copied().collect();
    order.sort_by_key(|d| d.local_def_index);
    let idx: FxHashMap<LocalDefId, usize> = order.iter().enumerate().map(|(i, d)| (*d, i)).collect();
    let bodies: FxHashMap<LocalDefId, mir::Body<'tcx>> = cx.bodies.clone();
    let mut out = W(String::new());
    out.raw("{\"crate\":");
    out.s(tcx.crate_name(LOCAL_CRATE).as_str());
    out.raw(",\"bodies\":[");
    for (i, d) in order.iter().enumerate() {
        if i > 0 {
            out.raw(",\n");
        }
        let j = cx.body_json(i, *d, &bodies[d]);
        out.raw(&j);
    }
    out.raw("]");
    // 2. instances: start at every non-generic function
    let mut nroots = 0;
    for d in &order {
        let kind = tcx.def_kind(*d);
        let g = tcx.generics_of(d.to_def_id());
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. }) && !g.requires_monomorphization(tcx) {
            let args = ty::GenericArgs::for_item(tcx, d.to_def_id(), |_, _| tcx.lifetimes.re_erased.into());
            cx.inst_id(Instance { def: InstanceKind::Item(d.to_def_id()), args });
            nroots += 1;
        }
    }
    out.raw(&format!(",\"nroots\":{},\"instances\":[", nroots));
    let mut n = 0;
    while n < cx.inst_list.len() {
        let inst = cx.inst_list[n];
        let l = inst.def_id().expect_local();
        let body = &bodies[&l];
        let env = TypingEnv::fully_monomorphized();
        if n > 0 {
            out.raw(",\n");
        }
        let a = with_no_trimmed_paths!(inst.args.iter().filter(|x| x.as_region().is_none()).map(|x| x.to_string()).collect::<Vec<_>>().join(" | "));
        out.raw(&format!("{{\"id\":{},\"b\":{},\"args\":{},\"calls\":{{", n, idx[&l], q(&a)));
        let mut first = true;
        let mut consts: Vec<String> = vec![];
        let generic = inst.args.types().next().is_some() || inst.args.consts().next().is_some();
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            let t = b.terminator();
            let js = match &t.kind {
                TerminatorKind::Call { func, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, ft)) {
                        Ok(ft) => cx.resolve_callee(ft),
                        Err(_) => "{\"x\":\"?\"}".to_string(),
                    }
                }
                TerminatorKind::Drop { place, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, pt)) {
                        Ok(pt) => {
                            let v = cx.drop_impls(pt);
                            if v.is_empty() && !generic {
                                continue;
                            }
                            let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                            let ti = cx.ty(pt);
                            format!("{{\"may\":[{}],\"ty\":{}}}", v.join(","), ti)
                        }
                        Err(_) => continue,
                    }
                }
                _ => continue,
            };
            if !first {
                out.raw(",");
            }
            first = false;
            out.raw(&format!("\"{}\":{}", bi.as_u32(), js));
        }
        out.raw("}");
        // function items / closures coerced to pointers, and constants depending on generics
        let mut reify: Vec<String> = vec![];
        for b in body.basic_blocks.iter() {
            for s in &b.statements {
                if let StatementKind::Assign(a) = &s.kind {
                    if let Rvalue::Cast(CastKind::PointerCoercion(pc, _), o, _) = &a.1 {
                        use ty::adjustment::PointerCoercion::*;
                        if matches!(pc, ReifyFnPointer(_) | ClosureFnPointer(_)) {
                            let ft = o.ty(&body.local_decls, tcx);
                            if let Ok(ft) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, ft)) {
                                let mut may = vec![];
                                cx.callables_in(ft, &mut FxHashSet::default(), &mut may, 0);
                                for m in may {
                                    reify.push(m.to_string());
                                }
                            }
                        }
                    }
                }
            }
        }
        if !reify.is_empty() {
            out.raw(&format!(",\"reify\":[{}]", reify.join(",")));
        }
        if generic {
            struct V<'tcx>(Vec<Const<'tcx>>);
            impl<'tcx> mir::visit::Visitor<'tcx> for V<'tcx> {
                fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _l: Location) {
                    if c.const_.has_non_region_param() && !matches!(c.const_.ty().kind(), ty::FnDef(..)) {
                        self.0.push(c.const_);
                    }
                }
            }
            let mut v = V(vec![]);
            mir::visit::Visitor::visit_body(&mut v, body);
            let mut seen = FxHashSet::default();
            for c in v.0 {
                let name = match c {
                    Const::Unevaluated(u, _) if u.promoted.is_none() => with_no_trimmed_paths!(format!("{}", path(tcx, u.def))),
                    Const::Unevaluated(u, _) => with_no_trimmed_paths!(format!("{}#p{}", path(tcx, u.def), u.promoted.unwrap().as_u32())),
                    Const::Ty(_, tc) => with_no_trimmed_paths!(tc.to_string()),
                    _ => continue,
                };
                if let Ok(cc) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, c)) {
                    if let Ok(val) = cc.eval(tcx, env, rustc_span::DUMMY_SP) {
                        if let Some(b) = cx.const_bits(val, cc.ty()).or_else(|| cx.ref_scalar(val, cc.ty(), env)) {
                            let k = format!("{}={}", name, b);
                            if seen.insert(k) {
                                consts.push(format!("[{},{}]", q(&name), b));
                            }
                        }
                    }
                }
            }
            if !consts.is_empty() {
                out.raw(&format!(",\"consts\":[{}]", consts.join(",")));
            }
            // concrete local types
            let mut tys: Vec<String> = vec![];
            for l in body.local_decls.iter() {
                match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, l.ty)) {
                    Ok(t) => tys.push(cx.ty(t).to_string()),
                    Err(_) => tys.push("null".into()),
                }
            }
            out.raw(&format!(",\"ltys\":[{}]", tys.join(",")));
        }
        out.raw("}");
        n += 1;
    }
    out.raw("]");
    // 3. impls and assoc consts
    out.raw(",\"impls\":[");
    let mut first = true;
    for id in tcx.hir_free_items() {
        let d = id.owner_id.def_id;
        if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
            continue;
        }
        if !first {
            out.raw(",\n");
        }
        first = false;
        let selft = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let st = cx.ty(selft);
        let (file, lo, _) = span_str(tcx, tcx.def_span(d));
        out.raw(&format!("{{\"self\":{},\"file\":{},\"lo\":{}", st, q(&file), lo));
        if let Some(tr) = tcx.impl_opt_trait_ref(d) {
            let tr = tr.skip_binder();
            out.raw(&format!(",\"trait\":{},\"traitref\":{}", q(&path(tcx, tr.def_id)), q(&with_no_trimmed_paths!(tr.to_string()))));
        }
        out.raw(",\"items\":[");
        let mut f2 = true;
        for it in tcx.associated_item_def_ids(d) {
            if !f2 {
                out.raw(",");
            }
            f2 = false;
            let ai = tcx.associated_item(*it);
            let k = tcx.def_kind(*it);
            let kname = format!("{:?}", k).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
            out.raw(&format!("{{\"n\":{},\"k\":{},\"p\":{}", q(&ai.opt_name().map(|n| n.to_string()).unwrap_or_default()), q(&kname), q(&path(tcx, *it))));
            if kname == "AssocConst" {
                let g = tcx.generics_of(*it);
                if !g.requires_monomorphization(tcx) {
                    let args = ty::GenericArgs::for_item(tcx, *it, |_, _| tcx.lifetimes.re_erased.into());
                    let c = Const::Unevaluated(UnevaluatedConst::new(*it, args), tcx.type_of(*it).instantiate(tcx, args).skip_norm_wip());
                    if let Ok(v) = c.eval(tcx, TypingEnv::fully_monomorphized(), rustc_span::DUMMY_SP) {
                        if let Some(b) = cx.const_bits(v, c.ty()) {
                            out.raw(&format!(",\"v\":{}", b));
                        } else if let Some(s) = cx.const_str(v, c.ty()) {
                            out.raw(&format!(",\"str\":{}", q(&s)));
                        } else if let Some(a) = cx.const_array(v, c.ty()) {
                            out.raw(&format!(",\"arr\":{:?}", a));
                        }
                    }
                }
            } else if kname == "AssocTy" {
                let t = tcx.type_of(*it).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                out.raw(&format!(",\"ty\":{}", t));
            }
            out.raw("}");
        }
        out.raw("]}");
    }
    out.raw("]");
    // free constants
    out.raw(",\"consts\":[");
    let mut first = true;
    for d in &order {
        let k = tcx.def_kind(*d);
        if let DefKind::Const { .. } = k {
            if tcx.generics_of(d.to_def_id()).requires_monomorphization(tcx) {
                continue;
            }
            let t = tcx.type_of(*d).instantiate_identity().skip_norm_wip();
            let args = ty::GenericArgs::for_item(tcx, d.to_def_id(), |_, _| tcx.lifetimes.re_erased.into());
            let c = Const::Unevaluated(UnevaluatedConst::new(d.to_def_id(), args), t);
            if let Ok(v) = c.eval(tcx, TypingEnv::fully_monomorphized(), rustc_span::DUMMY_SP) {
                let val = if let Some(b) = cx.const_bits(v, t) {
                    format!("{}", b)
                } else if let Some(s) = cx.const_str(v, t) {
                    q(&s)
                } else if let Some(a) = cx.const_array(v, t) {
                    format!("{:?}", a)
                } else {
                    continue;
                };
                if !first {
                    out.raw(",");
                }
                first = false;
                out.raw(&format!("[{},{}]", q(&path(tcx, d.to_def_id())), val));
            }
        }
    }
    out.raw("]");
    // 4. adts (may grow the type table)
    out.raw(",\"adts\":[");
    let mut first = true;
    // make sure every local ADT is there
    for id in tcx.hir_free_items() {
        let d = id.owner_id.def_id;
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            cx.note_adt(d.to_def_id());
        }
    }
    while let Some(d) = cx.adts_todo.pop() {
        if !first {
            out.raw(",\n");
        }
        first = false;
        let def = tcx.adt_def(d);
        let local = d.is_local();
        out.raw(&format!("{{\"p\":{},\"local\":{},\"k\":\"{}\"", q(&path(tcx, d)), local as u8, if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" }));
        if local {
            let (file, lo, _) = span_str(tcx, tcx.def_span(d));
            out.raw(&format!(",\"file\":{},\"lo\":{}", q(&file), lo));
            out.raw(&format!(",\"dtor\":{}", tcx.adt_destructor(d).is_some() as u8));
        }
        if def.is_enum() || local {
            out.raw(",\"variants\":[");
            let discrs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, x)| x.val).collect() } else { vec![] };
            let mut f2 = true;
            for (vi, v) in def.variants().iter_enumerated() {
                if !f2 {
                    out.raw(",");
                }
                f2 = false;
                out.raw(&format!("{{\"n\":{},\"d\":{},\"f\":[", q(v.name.as_str()), discrs.get(vi.as_usize()).map(|x| x.to_string()).unwrap_or("null".into())));
                let mut f3 = true;
                for f in v.fields.iter() {
                    if !f3 {
                        out.raw(",");
                    }
                    f3 = false;
                    if local {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(t);
                        out.raw(&format!("[{},{},{}]", q(f.name.as_str()), t, q(&format!("{:?}", f.vis))));
                    } else {
                        out.raw(&format!("[{}]", q(f.name.as_str())));
                    }
                }
                out.raw("]}");
            }
            out.raw("]");
        }
        out.raw("}");
    }
    out.raw("],\"types\":[");
    let t = cx.type_out.join(",\n");
    out.raw(&t);
    out.raw("]}");
    out.0
}
