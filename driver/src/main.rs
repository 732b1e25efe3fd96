//! Compiler driver: type-checks a crate as usual and dumps the monomorphic MIR
//! reachable from its entry points as JSON. Nothing of the crate is executed.
#![feature(rustc_private)]
#![allow(rustc::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, ShimKind, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String { format!("[{}]", v.join(",")) }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    bodies: Vec<String>,
    own: Vec<String>,
}

const DESCEND: &[&str] = &[
    "std::option::", "std::result::", "std::ops::", "std::convert::", "std::cmp::", "std::mem::", "std::bool::",
    "std::iter::", "core::bool::", "<std::option::Option", "<std::result::Result", "core::ops::", "std::hint::",
    "<T as std::convert::", "<impl std::convert::", "core::str::traits", "std::slice::<impl",
];

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let outer = sp.source_callsite();
        let f = |s: Span| {
            if s.is_dummy() {
                return "null".to_string();
            }
            let lo = sm.lookup_char_pos(s.lo());
            let hi = sm.lookup_char_pos(s.hi());
            format!(
                "[{},{},{},{},{}]",
                esc(&format!("{}", lo.file.name.prefer_local_unconditionally())),
                lo.line,
                lo.col.0 + 1,
                hi.line,
                hi.col.0 + 1
            )
        };
        if outer == sp { f(sp) } else { f(outer) }
    }
    // the innermost span (inside macro input when the tokens come from there)
    fn ispan(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return "null".to_string();
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        format!(
            "[{},{},{},{},{}]",
            esc(&format!("{}", lo.file.name.prefer_local_unconditionally())),
            lo.line,
            lo.col.0 + 1,
            hi.line,
            hi.col.0 + 1
        )
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let name = with_no_trimmed_paths!(format!("{}", t));
        let tcx = self.tcx;
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Int(it) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Uint(it) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Ref(_, inner, m) => format!("\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), self.ty(inner)),
            ty::RawPtr(inner, _) => format!("\"k\":\"ptr\",\"t\":{}", self.ty(inner)),
            ty::Slice(inner) => format!("\"k\":\"slice\",\"t\":{}", self.ty(inner)),
            ty::Array(inner, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(inner), n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"ts\":{}", list(&v))
            }
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", esc(&p))
            }
            ty::FnDef(d, args) => format!("\"k\":\"fndef\",\"path\":{},\"callee\":{}", esc(&self.path(d)), {
                let args = tcx.erase_and_anonymize_regions(args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
                self.callee(d, args)
            }),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(d, args);
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let names: Vec<String> = if d.is_local() || tcx.crate_name(d.krate).as_str().starts_with("packetc") {
                    tcx.closure_saved_names_of_captured_variables(d).iter().map(|s| esc(s.as_str())).collect()
                } else {
                    vec![]
                };
                let id = self.inst(inst);
                format!("\"k\":\"closure\",\"path\":{},\"inst\":{},\"upvars\":{},\"names\":{}", esc(&self.path(d)), id, list(&ups), list(&names))
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let krate = tcx.crate_name(def.did().krate).to_string();
                let mut s = format!(
                    "\"k\":\"adt\",\"path\":{},\"crate\":{},\"args\":{},\"enum\":{}",
                    esc(&p),
                    esc(&krate),
                    list(&targs),
                    def.is_enum()
                );
                let want = self.own.contains(&krate)
                    || krate.starts_with("peg")
                    || p.ends_with("option::Option")
                    || p.ends_with("result::Result")
                    || p.ends_with("ControlFlow")
                    || p.ends_with("cmp::Ordering")
                    || p.ends_with("borrow::Cow")
                    || p.ends_with("path::Component")
                    || p.ends_with("cmp::Reverse")
                    || p.starts_with("std::ops::Range")
                    || (def.is_enum() && def.variants().len() < 40 && def.variants().iter().all(|v| v.fields.is_empty()));
                if want && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx.try_normalize_erasing_regions(self.env, rustc_middle::ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                            fs.push(format!("{{\"name\":{},\"ty\":{}}}", esc(f.name.as_str()), self.ty(ft)));
                        }
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), d, list(&fs)));
                    }
                    s += &format!(",\"variants\":{}", list(&vs));
                }
                s
            }
            _ => "\"k\":\"other\"".into(),
        };
        self.ty_out[i] = format!("{{\"name\":{},{}}}", esc(&name), body);
        i
    }

    fn should_descend(&self, inst: Instance<'tcx>) -> bool {
        let InstanceKind::Item(d) = inst.def else { return false };
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            return false;
        }
        let krate = self.tcx.crate_name(d.krate).to_string();
        if self.own.contains(&krate) {
            return self.tcx.is_mir_available(d);
        }
        if !matches!(krate.as_str(), "core" | "std" | "alloc") {
            return false;
        }
        let p = self.path(d);
        DESCEND.iter().any(|x| p.starts_with(x)) && self.tcx.is_mir_available(d)
    }

    fn inst(&mut self, inst: Instance<'tcx>) -> i64 {
        if let Some(&i) = self.insts.get(&inst) {
            return i as i64;
        }
        if !self.should_descend(inst) {
            return -1;
        }
        let i = self.bodies.len();
        self.insts.insert(inst, i);
        self.bodies.push(String::new());
        self.queue.push_back((i, inst));
        i as i64
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let decl = self.path(d);
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let krate = tcx.crate_name(d.krate).to_string();
        let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        let mut s = format!("{{\"path\":{},\"crate\":{},\"args\":{}", esc(&decl), esc(&krate), list(&targs));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            s += &format!(",\"trait\":{}", esc(&self.path(tr)));
        }
        s += &format!(",\"name\":{}", esc(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder().skip_binder();
            let m: Vec<String> = sig
                .inputs()
                .iter()
                .map(|t| matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut()).to_string())
                .collect();
            s += &format!(",\"muts\":{}", list(&m));
        }
        // the formatting function behind `{}` is only referenced through a pointer
        if decl.ends_with("Argument::<'_>::new_display") || decl.ends_with("ToString::to_string") {
            if let (Some(t), Some(tr)) = (args.types().next(), tcx.get_diagnostic_item(rustc_span::sym::Display)) {
                let mut t = t;
                while let ty::Ref(_, inner, _) = t.kind() {
                    t = *inner;
                }
                if let Some(m) = tcx.associated_item_def_ids(tr).first() {
                    let a = tcx.mk_args(&[t.into()]);
                    if !t.has_param() {
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, *m, a) {
                            if i.def_id().krate == rustc_span::def_id::LOCAL_CRATE || tcx.crate_name(i.def_id().krate).as_str().starts_with("packetc") {
                                let id = self.inst(i);
                                s += &format!(",\"disp\":{}", id);
                            }
                        }
                    }
                }
            }
        }
        if is_ctor {
            let p = tcx.parent(d);
            // variant or struct constructor used as a function
            let (adt, vi) = match tcx.def_kind(p) {
                DefKind::Variant => {
                    let adt = tcx.adt_def(tcx.parent(p));
                    (adt, adt.variant_index_with_id(p).as_usize())
                }
                _ => (tcx.adt_def(p), 0),
            };
            let t = Ty::new_adt(tcx, adt, args);
            let ti = self.ty(t);
            s += &format!(",\"ctor\":[{},{}]", ti, vi);
        } else if !args.has_param() {
            match Instance::try_resolve(tcx, self.env, d, args) {
                Ok(Some(inst)) => {
                    let kind = match inst.def {
                        InstanceKind::Item(_) => "item",
                        InstanceKind::Virtual(..) => "virtual",
                        InstanceKind::Intrinsic(_) => "intrinsic",
                        InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                        InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
                        InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
                        InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop_glue",
                        InstanceKind::Shim(ShimKind::Reify(..)) => "reify",
                        _ => "shim",
                    };
                    let id = self.inst(inst);
                    let rp = self.path(inst.def_id());
                    let rkrate = tcx.crate_name(inst.def_id().krate).to_string();
                    s += &format!(",\"kind\":\"{}\",\"rpath\":{},\"rcrate\":{},\"inst\":{}", kind, esc(&rp), esc(&rkrate), id);
                }
                _ => s += ",\"kind\":\"unresolved\"",
            }
        } else {
            s += ",\"kind\":\"generic\"";
        }
        s.push('}');
        s
    }

    fn scalar_int(&self, bits: u128, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => format!("{{\"c\":\"bool\",\"v\":{}}}", bits != 0),
            ty::Char => format!("{{\"c\":\"char\",\"v\":{}}}", bits),
            ty::Int(it) => {
                let w = it.bit_width().unwrap_or(64);
                let v = ((bits << (128 - w)) as i128) >> (128 - w);
                format!("{{\"c\":\"int\",\"v\":{}}}", v)
            }
            ty::Uint(_) => format!("{{\"c\":\"int\",\"v\":{}}}", bits),
            _ => format!("{{\"c\":\"opaque\",\"d\":\"scalar {}\"}}", bits),
        }
    }

    fn mem(&mut self, aid: AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        if depth > 8 {
            return None;
        }
        let a = self.alloc(aid)?;
        let a = a.inner();
        let layout = tcx.layout_of(self.env.as_query_input(t)).ok()?;
        let size = layout.size.bytes();
        let bytes = |o: u64, n: u64| -> Option<Vec<u8>> {
            let r = a.inspect_with_uninit_and_ptr_outside_interpreter((o as usize)..((o + n) as usize));
            Some(r.to_vec())
        };
        let le = |b: &[u8]| b.iter().rev().fold(0u128, |x, y| (x << 8) | *y as u128);
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let b = bytes(off, size)?;
                Some(self.scalar_int(le(&b), t))
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let prov = a.provenance().ptrs().iter().find(|(o, _)| o.bytes() == off)?.1;
                let target = prov.alloc_id();
                let toff = le(&bytes(off, 8)?) as u64;
                let meta = if size > 8 { Some(le(&bytes(off + 8, 8)?) as u64) } else { None };
                self.pointee(target, toff, inner, meta, depth + 1)
            }
            ty::Array(inner, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let es = tcx.layout_of(self.env.as_query_input(inner)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.mem(aid, off + i * es, inner, depth + 1)?);
                }
                Some(format!("{{\"c\":\"array\",\"v\":{}}}", list(&v)))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let o = layout.fields.offset(i).bytes();
                    v.push(self.mem(aid, off + o, ft, depth + 1)?);
                }
                Some(format!("{{\"c\":\"tuple\",\"v\":{}}}", list(&v)))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let o = layout.fields.offset(i).bytes();
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    v.push(self.mem(aid, off + o, ft, depth + 1)?);
                }
                let ti = self.ty(t);
                Some(format!("{{\"c\":\"adt\",\"ty\":{},\"variant\":0,\"v\":{}}}", ti, list(&v)))
            }
            ty::Adt(def, _) if def.is_enum() => {
                let offset = rustc_abi::Size::from_bytes(off);
                self.destructure(ConstValue::Indirect { alloc_id: aid, offset }, t)
            }
            _ => None,
        }
    }

    /// constant memory, or the value of a static nothing can change
    fn alloc(&self, aid: AllocId) -> Option<mir::interpret::ConstAllocation<'tcx>> {
        let tcx = self.tcx;
        match tcx.global_alloc(aid) {
            GlobalAlloc::Memory(a) => Some(a),
            GlobalAlloc::Static(d) => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if tcx.is_mutable_static(d) || tcx.is_thread_local_static(d) || !t.is_freeze(tcx, self.env) {
                    return None;
                }
                tcx.eval_static_initializer(d).ok()
            }
            _ => None,
        }
    }

    fn pointee(&mut self, aid: AllocId, off: u64, inner: Ty<'tcx>, meta: Option<u64>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        let a = self.alloc(aid)?;
        match *inner.kind() {
            ty::Str => {
                let n = meta? as usize;
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..off as usize + n).to_vec();
                Some(format!("{{\"c\":\"str\",\"v\":{}}}", esc(&String::from_utf8(b).ok()?)))
            }
            ty::Slice(el) => {
                let n = meta?;
                let es = tcx.layout_of(self.env.as_query_input(el)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.mem(aid, off + i * es, el, depth + 1)?);
                }
                Some(format!("{{\"c\":\"ref\",\"v\":{{\"c\":\"array\",\"v\":{}}}}}", list(&v)))
            }
            _ => {
                let x = self.mem(aid, off, inner, depth + 1)?;
                Some(format!("{{\"c\":\"ref\",\"v\":{}}}", x))
            }
        }
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => {
                let ti = self.ty(t);
                Some(format!("{{\"c\":\"zst\",\"ty\":{}}}", ti))
            }
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => Some(self.scalar_int(i.to_bits_unchecked(), t)),
                _ => self.destructure(v, t),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match *t.kind() {
                    ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                        if let (GlobalAlloc::Static(d), None) = (tcx.global_alloc(prov.alloc_id()), self.alloc(prov.alloc_id())) {
                            let ti = self.ty(inner);
                            return Some(format!("{{\"c\":\"static\",\"path\":{},\"ty\":{}}}", esc(&self.path(d)), ti));
                        }
                        self.pointee(prov.alloc_id(), off.bytes(), inner, None, 0)
                    }
                    _ => None,
                }
            }
            ConstValue::Slice { alloc_id, meta } => match *t.kind() {
                ty::Ref(_, inner, _) => self.pointee(alloc_id, 0, inner, Some(meta), 0),
                _ => None,
            },
            ConstValue::Indirect { alloc_id, offset } => {
                self.mem(alloc_id, offset.bytes(), t, 0).or_else(|| self.destructure(v, t))
            }
        }
    }

    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let ty::Adt(..) = t.kind() else { return None };
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let mut fs = vec![];
        for (fv, ft) in d.fields.iter() {
            fs.push(self.constval(*fv, *ft)?);
        }
        let ti = self.ty(t);
        Some(format!(
            "{{\"c\":\"adt\",\"ty\":{},\"variant\":{},\"v\":{}}}",
            ti,
            d.variant.map(|v| v.as_usize()).unwrap_or(0),
            list(&fs)
        ))
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            let args = self.tcx.erase_and_anonymize_regions(args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
            let cal = self.callee(d, args);
            return format!("{{\"c\":\"fn\",\"f\":{}}}", cal);
        }
        let ti = self.ty(t);
        let named = match c.const_ {
            mir::Const::Unevaluated(u, _) if u.promoted.is_none() => Some(self.path(u.def)),
            _ => None,
        };
        let r = match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => self.constval(v, t),
            Err(_) => None,
        };
        let mut r = r.unwrap_or_else(|| {
            format!("{{\"c\":\"opaque\",\"ty\":{},\"d\":{}}}", ti, esc(&with_no_trimmed_paths!(format!("{:?}", c.const_))))
        });
        if let Some(n) = named {
            r.pop();
            r += &format!(",\"named\":{}}}", esc(&n));
        }
        r
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"field\",{}]", f.as_usize()),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"downcast\",{}]", vi.as_usize()),
                _ => "[\"opaque\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(&v))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(c)),
            _ => "[\"const\",{\"c\":\"bool\",\"v\":true,\"named\":\"runtime_check\"}]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)
            ),
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", matches!(bk, mir::BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), ti)
            }
            Rvalue::BinaryOp(op, ab) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&ab.0), self.operand(&ab.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                match &**k {
                    mir::AggregateKind::Array(_) => format!("[\"agg\",\"array\",0,0,{}]", list(&v)),
                    mir::AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,0,{}]", list(&v)),
                    mir::AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let ti = self.ty(t);
                        format!("[\"agg\",\"adt\",{},{},{}]", ti, vi.as_usize(), list(&v))
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ti = self.ty(t);
                        format!("[\"agg\",\"closure\",{},0,{}]", ti, list(&v))
                    }
                    _ => format!("[\"agg\",\"opaque\",0,0,{}]", list(&v)),
                }
            }
            _ => format!("[\"opaque\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, id: usize, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let b = tcx.instance_mir(inst.def);
        let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, b.clone()));
        let d = inst.def_id();
        let mut o = String::new();
        let krate = tcx.crate_name(d.krate).to_string();
        let _ = write!(
            o,
            "{{\"id\":{},\"path\":{},\"inst\":{},\"crate\":{},\"closure\":{},\"span\":{},\"ispan\":{},\"nargs\":{}",
            id,
            esc(&self.path(d)),
            esc(&with_no_trimmed_paths!(format!("{}", inst))),
            esc(&krate),
            tcx.is_closure_like(d),
            self.span(tcx.def_span(d)),
            self.ispan(b.span),
            b.arg_count
        );
        if let Some(s) = b.spread_arg {
            let _ = write!(o, ",\"spread\":{}", s.as_usize());
        }
        let ls: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":{}", list(&ls));
        let mut names = vec![];
        for vd in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = vd.value {
                names.push(format!("[{},{}]", esc(vd.name.as_str()), self.place(&p)));
            }
        }
        let _ = write!(o, ",\"names\":{}", list(&names));
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut ss = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        ss.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => {
                        if let mir::NonDivergingIntrinsic::CopyNonOverlapping(_) = **i {
                            ss.push("[\"opaque\",\"copy_nonoverlapping\"]".into())
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(format!("[{},{}]", val, bb.as_usize()));
                    }
                    let dt = discr.ty(&b.local_decls, tcx);
                    let ti = self.ty(dt);
                    format!("[\"switch\",{},{},{},{},{}]", self.operand(discr), list(&v), targets.otherwise().as_usize(), sp, ti)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, place, .. } => {
                    format!("[\"drop\",{},{}]", target.as_usize(), self.place(place))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        self.operand(func),
                        list(&a),
                        self.place(destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                        mir::AssertKind::OverflowNeg(..) => "overflow neg".to_string(),
                        mir::AssertKind::DivisionByZero(..) => "div by zero".to_string(),
                        mir::AssertKind::RemainderByZero(..) => "rem by zero".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, esc(&m), target.as_usize(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"diverge\"]".into(),
            };
            blocks.push(format!("[{},{}]", list(&ss), ts));
        }
        let _ = write!(o, ",\"blocks\":{}}}", list(&blocks));
        self.bodies[id] = o;
    }

    fn find(&self, root: DefId, path: &[&str]) -> Option<DefId> {
        let mut cur = root;
        for seg in path {
            let mut next = None;
            if cur.is_local() {
                for c in self.tcx.module_children_local(cur.expect_local()) {
                    if c.ident.name.as_str() == *seg {
                        if let Res::Def(_, d) = c.res {
                            next = Some(d);
                        }
                    }
                }
            } else {
                for c in self.tcx.module_children(cur) {
                    if c.ident.name.as_str() == *seg {
                        if let Res::Def(_, d) = c.res {
                            next = Some(d);
                        }
                    }
                }
            }
            cur = next?;
        }
        Some(cur)
    }

    fn run(&mut self, out: &str) {
        let tcx = self.tcx;
        let mut roots: Vec<(String, i64)> = vec![];
        if let Some((d, _)) = tcx.entry_fn(()) {
            let i = self.inst(Instance::mono(tcx, d));
            roots.push(("main".into(), i));
        }
        let lib = tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == "packetc_lib").map(|c| c.as_def_id());
        let mut missing: Vec<String> = vec![];
        if let Some(lib) = lib {
            let lang = self.find(lib, &["gen", "ts", "TypeScript"]);
            for (name, path, generic) in [
                ("compile", vec!["compile"], true),
                ("type_check", vec!["check", "type_check"], false),
                ("generate", vec!["gen", "generate"], true),
                ("schema", vec!["parser", "pkt", "schema"], false),
            ] {
                match (self.find(lib, &path), lang) {
                    (Some(d), Some(l)) => {
                        let args = if generic {
                            let t = tcx.type_of(l).instantiate_identity().skip_norm_wip();
                            tcx.mk_args(&[t.into()])
                        } else {
                            ty::List::empty()
                        };
                        // early-bound regions, if any, are erased
                        let n = tcx.generics_of(d).count();
                        let inst = if generic && n == 1 {
                            Some(Instance::new_raw(d, args))
                        } else if tcx.generics_of(d).own_requires_monomorphization() {
                            None
                        } else {
                            Some(Instance::mono(tcx, d))
                        };
                        match inst {
                            Some(i) => {
                                let i = self.inst(i);
                                roots.push((name.into(), i));
                            }
                            None => missing.push(name.into()),
                        }
                    }
                    _ => missing.push(name.into()),
                }
            }
            // how an error is shown
            if let (Some(e), Some(tr)) = (self.find(lib, &["Error"]), tcx.get_diagnostic_item(rustc_span::sym::Display)) {
                for imp in tcx.all_impls(tr) {
                    let t = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    if t.ty_adt_def().map(|a| a.did()) == Some(e) {
                        for it in tcx.associated_items(imp).in_definition_order() {
                            if it.name().as_str() == "fmt" {
                                let i = self.inst(Instance::mono(tcx, it.def_id));
                                roots.push(("error_display".into(), i));
                            }
                        }
                    }
                }
            }
            // functions made out of the actions of the grammar, in a copy of the sources
            if let Some(m) = self.find(lib, &["parser", "verif_actions"]) {
                let fns: Vec<(String, DefId)> = tcx
                    .module_children(m)
                    .iter()
                    .filter_map(|c| match c.res {
                        Res::Def(DefKind::Fn, d) if c.ident.name.as_str().starts_with("verif_action_") => {
                            Some((c.ident.name.to_string(), d))
                        }
                        _ => None,
                    })
                    .collect();
                for (name, d) in fns {
                    if !tcx.generics_of(d).own_requires_monomorphization() {
                        let i = self.inst(Instance::mono(tcx, d));
                        roots.push((name, i));
                    }
                }
            }
        } else {
            missing.push("packetc_lib".into());
        }
        while let Some((i, inst)) = self.queue.pop_front() {
            self.body(i, inst);
        }
        let mut o = String::from("{\"roots\":{");
        o += &roots.iter().map(|(n, i)| format!("{}:{}", esc(n), i)).collect::<Vec<_>>().join(",");
        o += "},\"missing\":";
        o += &list(&missing.iter().map(|m| esc(m)).collect::<Vec<_>>());
        o += ",\n\"types\":[\n";
        o += &self.ty_out.join(",\n");
        o += "],\n\"bodies\":[\n";
        o += &self.bodies.join(",\n");
        o += "]}\n";
        std::fs::write(out, o).expect("write dump");
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if tcx.entry_fn(()).is_some() && krate == "packetc" {
            if let Ok(out) = std::env::var("MIRDUMP_OUT") {
                let mut d = Dump {
                    tcx,
                    env: TypingEnv::fully_monomorphized(),
                    tys: HashMap::new(),
                    ty_out: vec![],
                    insts: HashMap::new(),
                    queue: VecDeque::new(),
                    bodies: vec![],
                    own: vec!["packetc".into(), "packetc_lib".into()],
                };
                d.run(&out);
                let _ = HashSet::<u8>::new();
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as a rustc wrapper: the first argument is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zub-checks=no".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Aunknown-lints".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
