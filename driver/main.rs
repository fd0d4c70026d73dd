// MIR dumper: a rustc driver that behaves like rustc and additionally writes
// the type-checked, borrow-checked MIR of every body in the crate as JSON to
// $MIRDUMP_OUT.  Nothing is executed: this only serialises the compiler's IR.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    adt_order: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    // crate-qualified, unique
    fn id(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        format!("{}{}", krate, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            other => format!("{:?}", other),
        };
        format!("{}:{}", name, lo.line)
    }
    fn tys(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<Ty<'tcx>> = args.types().collect();
        list(v.into_iter().map(|t| self.ty(t).to_string()).collect())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, i);
        let s = ty::print::with_no_trimmed_paths!(t.to_string());
        let body = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("\"k\":\"prim\"")
            }
            ty::Adt(d, args) => {
                self.adt(d.did());
                format!("\"k\":\"adt\",\"path\":{},\"args\":{}", js(&self.path(d.did())), self.tys(args))
            }
            ty::Ref(_, inner, m) => {
                let x = self.ty(*inner);
                format!("\"k\":\"ref\",\"mut\":{},\"of\":{}", m.is_mut(), x)
            }
            ty::RawPtr(inner, m) => {
                let x = self.ty(*inner);
                format!("\"k\":\"ptr\",\"mut\":{},\"of\":{}", m.is_mut(), x)
            }
            ty::Array(inner, n) => {
                let x = self.ty(*inner);
                let n = match n.try_to_target_usize(self.tcx) {
                    Some(n) => n.to_string(),
                    None => "null".into(),
                };
                format!("\"k\":\"array\",\"of\":{},\"len\":{}", x, n)
            }
            ty::Slice(inner) => {
                let x = self.ty(*inner);
                format!("\"k\":\"slice\",\"of\":{}", x)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"of\":{}", list(v))
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"closure\",\"id\":{},\"up\":{}", js(&self.id(*d)), list(ups))
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                format!("\"k\":\"fndef\",\"id\":{},\"path\":{},\"args\":{}", js(&self.id(*d)), js(&self.path(*d)), self.tys(args))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", js(p.name.as_str())),
            ty::Alias(..) => format!("\"k\":\"alias\""),
            ty::Dynamic(..) => format!("\"k\":\"dyn\""),
            _ => format!("\"k\":\"other\""),
        };
        self.types[i] = format!("{{\"s\":{},{}}}", js(&s), body);
        i
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, String::new());
        self.adt_order.push(d);
        let a = self.tcx.adt_def(d);
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        let discrs: HashMap<_, _> = if a.is_enum() {
            a.discriminants(self.tcx).map(|(v, d)| (v, d.val)).collect()
        } else {
            HashMap::new()
        };
        let local = d.is_local();
        for (vi, v) in a.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let tid = if local { self.ty(t).to_string() } else { "null".into() };
                fs.push(format!("[{},{}]", js(f.name.as_str()), tid));
            }
            let dv = discrs.get(&vi).map(|x| x.to_string()).unwrap_or("null".into());
            vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", js(v.name.as_str()), dv, list(fs)));
        }
        let s = format!(
            "{{\"kind\":\"{}\",\"path\":{},\"local\":{},\"variants\":{}}}",
            kind,
            js(&self.path(d)),
            local,
            list(vs)
        );
        self.adts.insert(d, s);
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => {
                    format!("[\"v\",{},{}]", v.index(), js(n.map(|s| s.to_string()).unwrap_or_default().as_str()))
                }
                _ => "[\"n\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.index(), list(v))
    }
    fn bytes_of(&self, c: &Const<'tcx>, val: ConstValue) -> Option<Vec<u8>> {
        // &str / &[u8] / &[u8;N]
        let t = c.ty();
        if let ty::Ref(_, inner, _) = t.kind() {
            match inner.kind() {
                ty::Str | ty::Slice(_) => {
                    return val.try_get_slice_bytes_for_diagnostics(self.tcx).map(|b| b.to_vec())
                }
                ty::Array(el, n) if *el == self.tcx.types.u8 => {
                    let n = n.try_to_target_usize(self.tcx)?;
                    if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = val {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let Some(mir::interpret::GlobalAlloc::Memory(a)) =
                            self.tcx.try_get_global_alloc(prov.alloc_id())
                        {
                            let a = a.inner();
                            let s = off.bytes_usize();
                            let e = s + n as usize;
                            return Some(a.inspect_with_uninit_and_ptr_outside_interpreter(s..e).to_vec());
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }
    fn konst(&mut self, c: &Const<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            return self.fnref(*d, args.skip_binder(), env, tid);
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c {
            match u.promoted {
                Some(p) => {
                    return format!(
                        "{{\"t\":{},\"promoted\":{},\"of\":{}}}",
                        tid,
                        p.index(),
                        js(&self.id(u.def))
                    )
                }
                None => {
                    extra = format!(",\"def\":{},\"path\":{}", js(&self.id(u.def)), js(&self.path(u.def)));
                }
            }
        }
        if let ty::Closure(..) = t.kind() {
            return format!("{{\"t\":{},\"zst\":true}}", tid);
        }
        let is_scalar = t.is_integral() || t.is_bool() || t.is_char();
        if is_scalar {
            if let Some(s) = c.try_eval_scalar_int(self.tcx, env) {
                let b = s.to_bits_unchecked();
                let v = if t.is_signed() {
                    let sz = s.size();
                    format!("{}", sz.sign_extend(b))
                } else {
                    format!("{}", b)
                };
                return format!("{{\"t\":{},\"int\":{}{}}}", tid, v, extra);
            }
            return format!("{{\"t\":{},\"opaque\":{}{}}}", tid, js(&format!("{:?}", c)), extra);
        }
        // ADT newtype wrappers over scalars etc. stay opaque unless plain values
        if !c.has_param() {
            if let Ok(val) = c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                if let Some(b) = self.bytes_of(c, val) {
                    let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                    return format!("{{\"t\":{},\"bytes\":\"{}\"{}}}", tid, hex, extra);
                }
                if let ConstValue::ZeroSized = val {
                    return format!("{{\"t\":{},\"zst\":true{}}}", tid, extra);
                }
                if let Some(v) = self.destructure(val, t, env, 0) {
                    return format!("{{\"t\":{},\"val\":{}{}}}", tid, v, extra);
                }
                // reference to a static or to constant memory
                if let (ty::Ref(_, inner, _), ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) = (t.kind(), val) {
                    let (prov, off) = p.prov_and_relative_offset();
                    let tcx = self.tcx;
                    let mut name = String::new();
                    let id = match tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(mir::interpret::GlobalAlloc::Static(d)) if !tcx.is_mutable_static(d) => {
                            name = format!(",\"def\":{},\"path\":{}", js(&self.id(d)), js(&self.path(d)));
                            tcx.eval_static_initializer(d).ok().map(|a| tcx.reserve_and_set_memory_alloc(a))
                        }
                        Some(mir::interpret::GlobalAlloc::Memory(_)) => Some(prov.alloc_id()),
                        _ => None,
                    };
                    if let Some(alloc_id) = id {
                        if matches!(inner.kind(), ty::Adt(..)) {
                            if let Some(v) = self.destructure(ConstValue::Indirect { alloc_id, offset: off }, *inner, env, 0) {
                                let it = self.ty(*inner);
                                return format!("{{\"t\":{},\"refval\":{{\"t\":{},\"val\":{}{}}}}}", tid, it, v, name);
                            }
                        }
                    }
                }
            }
        }
        format!("{{\"t\":{},\"opaque\":{}{}}}", tid, js(&format!("{:?}", c)), extra)
    }
    fn destructure(&mut self, val: ConstValue, t: Ty<'tcx>, _env: ty::TypingEnv<'tcx>, depth: usize) -> Option<String> {
        if depth > 4 {
            return None;
        }
        if t.is_integral() || t.is_bool() {
            let b = val.try_to_scalar_int()?;
            let v = if t.is_signed() { format!("{}", b.size().sign_extend(b.to_bits_unchecked())) } else { format!("{}", b.to_bits_unchecked()) };
            return Some(format!("{{\"t\":{},\"int\":{}}}", self.ty(t), v));
        }
        match t.kind() {
            ty::Adt(d, _) if !d.is_union() => {}
            ty::Array(_, n) => {
                if n.try_to_target_usize(self.tcx)? > 64 {
                    return None;
                }
            }
            ty::Tuple(_) => {}
            _ => return None,
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(val, t)?;
        let mut fs = vec![];
        for (v, ft) in d.fields.iter() {
            fs.push(self.destructure(*v, *ft, _env, depth + 1)?);
        }
        let vi = d.variant.map(|v| v.index().to_string()).unwrap_or("null".into());
        Some(format!("{{\"t\":{},\"variant\":{},\"fields\":{}}}", self.ty(t), vi, list(fs)))
    }
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>, tid: usize) -> String {
        let tcx = self.tcx;
        let mut rid = String::from("null");
        let mut rpath = String::from("null");
        let mut rlocal = false;
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, tcx.erase_and_anonymize_regions(args)) {
            let rd = inst.def_id();
            rid = js(&self.id(rd));
            rpath = js(&self.path(rd));
            rlocal = rd.is_local() && matches!(inst.def, ty::InstanceKind::Item(_));
        }
        // the trait the method belongs to, if any
        let tr = match tcx.trait_of_assoc(d) {
            Some(t) => js(&self.path(t)),
            None => "null".into(),
        };
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let a = self.tys(args);
        let selfty = match tcx.impl_of_assoc(d) {
            Some(i) => {
                let t = tcx.type_of(i).instantiate(tcx, args).skip_norm_wip();
                self.ty(t).to_string()
            }
            None => "null".into(),
        };
        format!(
            "{{\"t\":{},\"fn\":{},\"id\":{},\"name\":{},\"trait\":{},\"args\":{},\"self\":{},\"rid\":{},\"rpath\":{},\"rlocal\":{}}}",
            tid, js(&self.path(d)), js(&self.id(d)), js(&name), tr, a, selfty, rid, rpath, rlocal
        )
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_, env)),
            _ => "[\"k\",{\"opaque\":\"rtcheck\"}]".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, env), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(o, env), self.ty(*t))
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{:?}", op)),
                self.operand(&ab.0, env),
                self.operand(&ab.1, env)
            ),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(a, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        self.adt(*d);
                        let a = match active {
                            Some(f) => f.index().to_string(),
                            None => "null".into(),
                        };
                        format!("[\"adt\",{},{},{}]", js(&self.path(*d)), v.index(), a)
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", js(&self.id(*d))),
                    other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                format!("[\"agg\",{},{}]", kk, list(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            other => format!("[\"opaque\",{}]", js(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let n = names.get(&l.index()).map(|s| js(s)).unwrap_or("null".into());
                format!("[{},{}]", self.ty(d.ty), n)
            })
            .collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        st.push(format!(
                            "[{},{},{}]",
                            self.place(p),
                            self.rvalue(r, env),
                            js(&self.span(s.source_info.span))
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[{},[\"setdiscr\",{}],{}]",
                            self.place(place),
                            variant_index.index(),
                            js(&self.span(s.source_info.span))
                        ));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = js(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", v, b.index())).collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr, env),
                        list(ts),
                        targets.otherwise().index(),
                        self.ty(discr.ty(&b.local_decls, self.tcx))
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target.index())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(&o.node, env)).collect();
                    let tg = target.map(|t| t.index().to_string()).unwrap_or("null".into());
                    format!(
                        "[\"call\",{},{},{},{}]",
                        self.operand(func, env),
                        list(a),
                        self.place(destination),
                        tg
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "divzero".to_string(),
                        AssertKind::RemainderByZero(..) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(cond, env),
                        expected,
                        js(&k),
                        target.index()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                _ => "[\"diverge\"]".to_string(),
            };
            blocks.push(format!("[{},{},{}]", list(st), term, sp));
        }
        format!("\"args\":{},\"locals\":{},\"blocks\":{}", b.arg_count, list(locals), list(blocks))
    }
}

struct Dump;
impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: HashMap::new(), adt_order: vec![] };
        let mut bodies = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let env = ty::TypingEnv::post_analysis(tcx, d);
            let (k, body): (&str, &Body<'tcx>) = match kind {
                DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
                DefKind::Closure => ("closure", tcx.optimized_mir(d)),
                DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static { .. } => ("const", tcx.mir_for_ctfe(d)),
                DefKind::AnonConst => ("anonconst", tcx.mir_for_ctfe(d)),
                DefKind::Ctor(..) => continue,
                _ => continue,
            };
            let vis = if matches!(kind, DefKind::Fn | DefKind::AssocFn) { tcx.visibility(d).is_public() } else { false };
            let attrs = if tcx.is_automatically_derived(tcx.parent(d)) { "true" } else { "false" };
            let tr = match tcx.opt_parent(d).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { .. })) {
                Some(p) => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let t = if matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }) {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        js(&cx.path(tr.def_id))
                    } else { "null".into() };
                    format!("[{},{}]", st, t)
                }
                None => "null".into(),
            };
            let upnames: Vec<String> = if kind == DefKind::Closure {
                tcx.closure_captures(ld).iter().map(|c| js(&c.to_symbol().to_string())).collect()
            } else { vec![] };
            let sp = cx.span(tcx.def_span(d));
            let inner = cx.body(body, env);
            let fromexp = tcx.def_span(d).from_expansion();
            bodies.push(format!(
                "{}:{{\"kind\":\"{}\",\"path\":{},\"span\":{},\"pub\":{},\"derived\":{},\"impl\":{},\"upnames\":{},\"expn\":{},{}}}",
                js(&cx.id(d)), k, js(&cx.path(d)), js(&sp), vis, attrs, tr, list(upnames), fromexp, inner
            ));
            if matches!(k, "fn" | "closure" | "const") {
                let proms = tcx.promoted_mir(d);
                for (i, p) in proms.iter_enumerated() {
                    let inner = cx.body(p, env);
                    bodies.push(format!(
                        "{}:{{\"kind\":\"promoted\",\"path\":{},\"span\":{},\"pub\":false,\"derived\":{},\"impl\":null,\"upnames\":[],\"expn\":false,{}}}",
                        js(&format!("{}#promoted{}", cx.id(d), i.index())), js(&cx.path(d)), js(&sp), attrs, inner
                    ));
                }
            }
        }
        // size facts for local account types
        let mut sizes = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if !t.has_param() {
                    let env = ty::TypingEnv::fully_monomorphized();
                    let te = tcx.erase_and_anonymize_regions(t);
                    cx.ty(t);
                    if let Ok(l) = tcx.layout_of(env.as_query_input(te)) {
                        sizes.push(format!("{}:{}", js(&cx.path(d)), l.size.bytes()));
                    }
                }
            }
        }
        let adts: Vec<String> = cx
            .adt_order
            .clone()
            .iter()
            .map(|d| format!("{}:{}", js(&cx.path(*d)), cx.adts[d]))
            .collect();
        let json = format!(
            "{{\"crate\":{},\"types\":{},\"adts\":{{{}}},\"sizes\":{{{}}},\"bodies\":{{{}}}}}",
            js(tcx.crate_name(LOCAL_CRATE).as_str()),
            list(cx.types.clone()),
            adts.join(",\n"),
            sizes.join(","),
            bodies.join(",\n")
        );
        std::fs::write(&out, json).expect("write dump");
        Compilation::Stop
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::compiler_entrypoint(&args, &mut Dump);
}
