//! MIR extractor: acts as rustc for the crate it is invoked on and, for the roots crate,
//! writes every reachable monomorphic instance's MIR (callees resolved, constants decoded
//! through the type layout) as JSON.  It decides nothing; the rules live in ../engine.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, rustc_internal};
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    tyjson: Vec<String>,
    insts: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    order: Vec<Instance>,
    companions: HashMap<usize, String>,
    drops: HashMap<usize, i64>,
    alloc_depth: usize,
}

fn op_kind(k: &AdtKind) -> &'static str {
    match k {
        AdtKind::Enum => "enum",
        AdtKind::Union => "union",
        AdtKind::Struct => "struct",
    }
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyjson.len();
        self.tys.insert(t, i);
        self.tyjson.push(String::new());
        let j = self.ty_json(t);
        self.tyjson[i] = j;
        i
    }

    fn args_json(&mut self, args: &GenericArgs) -> String {
        let mut v = vec![];
        for a in args.0.iter() {
            match a {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => {
                    v.push(format!("{{\"c\":{}}}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())))
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        list(v)
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let size = match &kind {
            TyKind::RigidTy(_) => t.layout().ok().map(|l| l.shape()).filter(|s| s.is_sized()).map(|s| s.size.bytes()),
            _ => None,
        };
        let size = size.map(|s| s.to_string()).unwrap_or("null".into());
        let rigid = match kind {
            TyKind::RigidTy(r) => r,
            other => return format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        };
        match rigid {
            RigidTy::Bool => "{\"k\":\"bool\",\"size\":1}".into(),
            RigidTy::Char => "{\"k\":\"char\",\"size\":4}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"signed\":true,\"bits\":{},\"size\":{}}}", i.num_bytes() * 8, i.num_bytes()),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"signed\":false,\"bits\":{},\"size\":{}}}", i.num_bytes() * 8, i.num_bytes()),
            RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"elem\":{},\"len\":{},\"size\":{}}}", self.ty(e), n, size)
            }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"elem\":{}}}", self.ty(e)),
            RigidTy::Pat(e, _) => format!("{{\"k\":\"pat\",\"elem\":{},\"size\":{}}}", self.ty(e), size),
            RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"to\":{},\"mut\":{},\"size\":{}}}", self.ty(e), m == Mutability::Mut, size),
            RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"to\":{},\"mut\":{},\"size\":{}}}", self.ty(e), m == Mutability::Mut, size),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"fields\":{},\"size\":{}}}", list(v), size)
            }
            RigidTy::FnDef(def, args) => {
                let inst = Instance::resolve(def, &args).ok();
                let i = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"fndef\",\"name\":{},\"inst\":{},\"args\":{}}}", esc(&def.name()), i, self.args_json(&args))
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::Closure(def, args) => {
                // closure args: parent..., kind, sig, tupled upvars
                let mut up = "null".to_string();
                if let Some(GenericArgKind::Type(u)) = args.0.last() {
                    up = self.ty(*u).to_string();
                }
                format!("{{\"k\":\"closure\",\"name\":{},\"upvars\":{},\"size\":{}}}", esc(&def.name()), up, size)
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&format!("{}", t))),
            RigidTy::Foreign(d) => format!("{{\"k\":\"foreign\",\"name\":{}}}", esc(&d.name())),
            RigidTy::Adt(def, args) => {
                let mut vs = vec![];
                for v in def.variants_iter() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        fs.push(format!("[{},{}]", esc(&f.name), self.ty(ft)));
                    }
                    let d = if def.kind() == AdtKind::Enum {
                        let d = def.discriminant_for_variant(v.idx());
                        let dt = self.ty(d.ty);
                        format!("[\"{}\",{}]", d.val, dt)
                    } else {
                        "null".into()
                    };
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(&v.name()), d, list(fs)));
                }
                let did = rustc_internal::internal(self.tcx, def.def_id());
                let dtor = self.tcx.adt_destructor(did).is_some();
                let a = self.args_json(&args);
                format!(
                    "{{\"k\":\"adt\",\"ak\":\"{}\",\"name\":{},\"crate\":{},\"variants\":{},\"args\":{},\"dtor\":{},\"size\":{},\"transparent\":{}}}",
                    op_kind(&def.kind()), esc(&def.name()), esc(&def.krate().name), list(vs), a, dtor, size,
                    def.repr().flags.is_transparent
                )
            }
            other => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let n = self.order.len();
        self.insts.insert(i, n);
        self.order.push(i);
        self.queue.push_back(i);
        n
    }

    // ---- constants -----------------------------------------------------------------------
    fn value(&mut self, a: &Allocation, off: usize, t: Ty) -> String {
        if self.alloc_depth > 24 {
            return "{\"opaque\":\"deep\"}".into();
        }
        self.alloc_depth += 1;
        let r = self.value_(a, off, t);
        self.alloc_depth -= 1;
        r
    }

    fn uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if n == 0 || off + n > a.bytes.len() { return None; }
        a.read_partial_uint(off..off + n).ok()
    }

    fn pointer(&mut self, a: &Allocation, off: usize, to: Ty) -> String {
        let meta = self.uint(a, off + 8, 8);
        let addr = self.uint(a, off, 8).unwrap_or(0) as usize;
        let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
        let Some(id) = prov else {
            return format!("{{\"int\":\"{}\"}}", addr);
        };
        match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(m) => match to.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let n = meta.unwrap_or(0) as usize;
                    let b: Vec<String> = (addr..addr + n).map(|i| m.bytes.get(i).copied().flatten().unwrap_or(0).to_string()).collect();
                    format!("{{\"ref\":{{\"str\":{}}}}}", list(b))
                }
                TyKind::RigidTy(RigidTy::Slice(e)) => {
                    let n = meta.unwrap_or(0) as usize;
                    let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let ei = self.ty(e);
                    let v: Vec<String> = (0..n).map(|i| self.value(&m, addr + i * sz, e)).collect();
                    format!("{{\"ref\":{{\"arr\":{},\"ety\":{}}},\"slice\":{}}}", list(v), ei, n)
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => "{\"opaque\":\"dyn\"}".into(),
                _ => {
                    let v = self.value(&m, addr, to);
                    let ti = self.ty(to);
                    format!("{{\"ref\":{},\"rty\":{}}}", v, ti)
                }
            },
            GlobalAlloc::Function(i) => format!("{{\"fnptr\":{}}}", self.inst(i)),
            GlobalAlloc::Static(s) => {
                let mutable = {
                    let did = rustc_internal::internal(self.tcx, s.def_id());
                    self.tcx.is_mutable_static(did)
                };
                let st = s.ty();
                let v = match s.eval_initializer() {
                    Ok(al) => self.value(&al, addr, st),
                    Err(_) => "{\"opaque\":\"static\"}".into(),
                };
                let freeze = {
                    let ity = rustc_internal::internal(self.tcx, st);
                    ity.is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
                };
                let sti = self.ty(st);
                format!("{{\"ref\":{},\"static\":{},\"mut\":{},\"freeze\":{},\"rty\":{},\"crate\":{}}}", v, esc(&s.name()), mutable, freeze, sti, esc(&s.krate().name))
            }
            _ => "{\"opaque\":\"ptr\"}".into(),
        }
    }

    fn value_(&mut self, a: &Allocation, off: usize, t: Ty) -> String {
        let Ok(layout) = t.layout() else { return "{\"opaque\":\"layout\"}".into() };
        let shape = layout.shape();
        let TyKind::RigidTy(r) = t.kind() else { return "{\"opaque\":\"ty\"}".into() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Float(_) => match self.uint(a, off, shape.size.bytes()) {
                Some(v) => format!("{{\"int\":\"{}\"}}", v),
                None => "{\"undef\":1}".into(),
            },
            RigidTy::Int(_) => match self.uint(a, off, shape.size.bytes()) {
                Some(v) => {
                    let bits = shape.size.bytes() * 8;
                    let s = if bits == 128 { v as i128 } else if v >> (bits - 1) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                    format!("{{\"int\":\"{}\"}}", s)
                }
                None => "{\"undef\":1}".into(),
            },
            RigidTy::Pat(e, _) => self.value(a, off, e),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v: Vec<String> = (0..n).map(|i| self.value(a, off + i * sz, e)).collect();
                let ei = self.ty(e);
                format!("{{\"arr\":{},\"ety\":{}}}", list(v), ei)
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return "{\"agg\":[],\"v\":0}".into() };
                let v: Vec<String> = ts.iter().zip(offsets.iter()).map(|(t, o)| self.value(a, off + o.bytes(), *t)).collect();
                format!("{{\"agg\":{},\"v\":0}}", list(v))
            }
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => self.pointer(a, off, to),
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                match prov.map(GlobalAlloc::from) {
                    Some(GlobalAlloc::Function(i)) => format!("{{\"fnptr\":{}}}", self.inst(i)),
                    _ => "{\"opaque\":\"fnptr\"}".into(),
                }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) if shape.size.bytes() == 0 => format!("{{\"agg\":[],\"v\":0}}"),
            RigidTy::Adt(def, args) => {
                let union = def.kind() == AdtKind::Union;
                let (vi, offsets): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return "{\"opaque\":\"empty\"}".into(),
                    VariantsShape::Single { index } => {
                        let o = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            FieldsShape::Union(n) => vec![0; n.get()],
                            _ => vec![],
                        };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return "{\"opaque\":\"tagfield\"}".into() };
                        let toff = off + offsets[*tag_field].bytes();
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        let isptr = a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                        let Some(tagv) = self.uint(a, toff, tsz) else { return "{\"undef\":1}".into() };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                let mut found = 0;
                                for v in def.variants_iter() {
                                    let d = def.discriminant_for_variant(v.idx());
                                    if d.val & mask == tagv & mask { found = v.idx().to_index(); }
                                }
                                found
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                let rel = tagv.wrapping_sub(*niche_start) & mask;
                                let lo = niche_variants.start().to_index() as u128;
                                let hi = niche_variants.end().to_index() as u128;
                                if !isptr && rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let Some(var) = def.variants_iter().nth(vi) else { return "{\"opaque\":\"variant\"}".into() };
                let fields = var.fields();
                if union {
                    let mut best = None;
                    for (k, f) in fields.iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        let sz = ft.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        if best.map(|(_, s)| sz > s).unwrap_or(true) { best = Some((k, sz)); }
                    }
                    if let Some((k, _)) = best {
                        let ft = fields[k].ty_with_args(&args);
                        let v = self.value(a, off, ft);
                        return format!("{{\"union\":{},\"f\":{}}}", v, k);
                    }
                    return "{\"opaque\":\"union\"}".into();
                }
                let v: Vec<String> = fields.iter().enumerate().map(|(k, f)| {
                    let ft = f.ty_with_args(&args);
                    self.value(a, off + offsets.get(k).copied().unwrap_or(0), ft)
                }).collect();
                let ti = self.ty(t);
                format!("{{\"agg\":{},\"v\":{},\"ty\":{}}}", list(v), vi, ti)
            }
            _ => "{\"opaque\":\"kind\"}".into(),
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.value(a, 0, t),
            ConstantKind::ZeroSized => "{\"zst\":1}".into(),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => format!("{{\"int\":\"{}\"}}", v),
                Err(_) => "{\"opaque\":\"tyconst\"}".into(),
            },
            _ => "{\"opaque\":\"const\"}".into(),
        };
        format!("[\"const\",{},{}]", ti, v)
    }

    // ---- MIR -----------------------------------------------------------------------------
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, list(v))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(k) => format!("[\"rt\",\"{:?}\"]", k),
        }
    }

    fn operands(&mut self, v: &[Operand]) -> String {
        let v: Vec<String> = v.iter().map(|o| self.operand(o)).collect();
        list(v)
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::AddressOf(k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, RawPtrKind::Mut)),
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), t)
            }
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let mut extra = "null".to_string();
                if let CastKind::PointerCoercion(pc) = k {
                    if let Ok(sty) = o.ty(locals) {
                        match (pc, sty.kind()) {
                            (PointerCoercion::ReifyFnPointer(_), TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) { extra = self.inst(i).to_string(); }
                            }
                            (PointerCoercion::ClosureFnPointer(_), TyKind::RigidTy(RigidTy::Closure(d, a))) => {
                                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { extra = self.inst(i).to_string(); }
                            }
                            (PointerCoercion::Unsize, _) => {
                                let v: Vec<String> = self.vtable(sty, *t).into_iter().map(|i| i.to_string()).collect();
                                if !v.is_empty() { extra = list(v); }
                            }
                            _ => {}
                        }
                    }
                }
                let ks = match k {
                    CastKind::PointerCoercion(pc) => format!("{:?}", pc),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{},{},{}]", esc(&ks), self.operand(o), self.ty(*t), st, extra)
            }
            Rvalue::Discriminant(p) => {
                let t = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name())),
            Rvalue::Aggregate(k, ops) => {
                let o = self.operands(ops);
                let t = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                match k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{},{},0]", o, t),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{},{},0]", o, t),
                    AggregateKind::Adt(_, v, _, _, f) => {
                        if let Some(f) = f {
                            format!("[\"agg\",\"union\",{},{},{}]", o, t, f)
                        } else {
                            format!("[\"agg\",\"adt\",{},{},{}]", o, t, v.to_index())
                        }
                    }
                    AggregateKind::Closure(..) => format!("[\"agg\",\"closure\",{},{},0]", o, t),
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",{},{},0]", o, t),
                    _ => format!("[\"agg\",\"other\",{},{},0]", o, t),
                }
            }
        }
    }

    /// the methods a value brings along when it is turned into a trait object
    fn vtable(&mut self, from: Ty, to: Ty) -> Vec<usize> {
        let tcx = self.tcx;
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let (f, t) = (rustc_internal::internal(tcx, from), rustc_internal::internal(tcx, to));
        let (Some(f), Some(t)) = (f.builtin_deref(true).or(f.boxed_ty()), t.builtin_deref(true).or(t.boxed_ty())) else { return vec![] };
        let (f, t) = tcx.struct_lockstep_tails_for_codegen(f, t, env);
        let rustc_middle::ty::Dynamic(preds, _) = t.kind() else { return vec![] };
        let Some(pr) = preds.principal() else { return vec![] };
        let tr = tcx.instantiate_bound_regions_with_erased(pr.with_self_ty(tcx, f));
        let tr = tcx.erase_and_anonymize_regions(tr);
        let mut v = vec![];
        for e in tcx.vtable_entries(tr) {
            if let rustc_middle::ty::VtblEntry::Method(i) = e {
                v.push(self.inst(rustc_internal::stable(*i)));
            }
        }
        v
    }

    fn line(&self, s: Span) -> usize {
        s.get_lines().start_line
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in b.blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p);
                        let rs = self.rvalue(r, &locals);
                        st.push(format!("[\"=\",{},{},{}]", ps, rs, ln))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{},{}]", self.place(place), variant_index.to_index(), ln))
                    }
                    StatementKind::StorageLive(l) => st.push(format!("[\"sl\",{}]", l)),
                    StatementKind::StorageDead(l) => st.push(format!("[\"sdead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => st.push(format!("[\"assume\",{}]", self.operand(o))),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        st.push(format!("[\"cpy\",{},{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), ln))
                    }
                    _ => {}
                }
            }
            let ln = self.line(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let ty = discr.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{},{},{}]", d, list(br), targets.otherwise(), ty, ln)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Unreachable => format!("[\"unreachable\",{}]", ln),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    if let Ok(t) = place.ty(&locals) {
                        self.dropfns(t, 0);
                    }
                    format!("[\"drop\",{},{},{},{}]", self.place(place), t, target, ln)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut f = "null".to_string();
                    let mut fo = "null".to_string();
                    match func.ty(&locals).map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => match Instance::resolve(d, &a) {
                            Ok(i) => f = self.inst(i).to_string(),
                            Err(_) => fo = format!("[\"unresolved\",{}]", esc(&d.name())),
                        },
                        _ => fo = self.operand(func),
                    }
                    let ar = self.operands(args);
                    let dp = self.place(destination);
                    let dt = destination.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{},{},{}]", f, ar, dp, target.map(|t| t.to_string()).unwrap_or("null".into()), ln, dt, fo)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                        m => format!("[{}]", esc(m.description().unwrap_or("assert"))),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, m, target, ln)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[{},{}]", list(st), t));
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, esc(&v.name)));
            }
        }
        format!(
            "{{\"locals\":{},\"argc\":{},\"spread\":{},\"blocks\":{},\"names\":{}}}",
            list(lt), b.arg_locals().len(), b.spread_arg().map(|s| s.to_string()).unwrap_or("null".into()), list(blocks), list(names)
        )
    }

    // Drop implementations a drop of this type runs (containers that only free memory excluded).
    fn dropfns(&mut self, t: Ty, depth: usize) {
        let ti = self.ty(t);
        if depth > 12 || self.drops.contains_key(&ti) {
            return;
        }
        let mut id = -1i64;
        let kind = t.kind();
        let mut subs: Vec<Ty> = vec![];
        match kind.rigid() {
            Some(RigidTy::Adt(def, args)) => {
                let did = rustc_internal::internal(self.tcx, def.def_id());
                let n = def.name();
                let cr = def.krate().name;
                let plain = cr == "alloc" && (n.ends_with("::Vec") || n.ends_with("::RawVec") || n.ends_with("::Box") || n.ends_with("::IntoIter"));
                if self.tcx.adt_destructor(did).is_some() && !plain {
                    let ity = rustc_internal::internal(self.tcx, t);
                    let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                    if let Some(tr) = self.tcx.lang_items().drop_trait() {
                        let item = self.tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == "drop");
                        if let Some(item) = item {
                            let a = self.tcx.mk_args(&[ity.into()]);
                            if let Ok(Some(inst)) = rustc_middle::ty::Instance::try_resolve(self.tcx, env, item.def_id, a) {
                                id = self.inst(rustc_internal::stable(inst)) as i64;
                            }
                        }
                    }
                    if id < 0 {
                        id = -2;
                    }
                }
                self.drops.insert(ti, id);
                if !n.ends_with("::ManuallyDrop") && !n.ends_with("::MaybeUninit") && !n.ends_with("::PhantomData") {
                    for v in def.variants_iter() {
                        for f in v.fields() {
                            subs.push(f.ty_with_args(args));
                        }
                    }
                    if plain {
                        for a in args.0.iter() {
                            if let GenericArgKind::Type(t) = a {
                                subs.push(*t);
                            }
                        }
                    }
                }
            }
            Some(RigidTy::Tuple(ts)) => {
                self.drops.insert(ti, -1);
                subs.extend(ts.iter().copied());
            }
            Some(RigidTy::Array(t, _)) | Some(RigidTy::Slice(t)) => {
                self.drops.insert(ti, -1);
                subs.push(*t);
            }
            Some(RigidTy::Closure(_, args)) => {
                self.drops.insert(ti, -1);
                if let Some(GenericArgKind::Type(u)) = args.0.last() {
                    subs.push(*u);
                }
            }
            Some(RigidTy::Dynamic(..)) => {
                self.drops.insert(ti, -3);
            }
            _ => {
                self.drops.insert(ti, -1);
            }
        }
        for s in subs {
            self.dropfns(s, depth + 1);
        }
    }

    // For every type used as a generic argument that is an iterator, resolve its methods, so the
    // analysis can step adaptors inside natively modelled consumers (collect, extend, ...).
    fn companion(&mut self, t: Ty) {
        let ti = self.ty(t);
        if self.companions.contains_key(&ti) {
            return;
        }
        self.companions.insert(ti, String::new());
        let tcx = self.tcx;
        let ity = rustc_internal::internal(tcx, t);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let mut out = vec![];
        use rustc_span::sym;
        let mut traits = vec![];
        if let Some(d) = tcx.get_diagnostic_item(sym::Iterator) {
            traits.push((d, vec!["next"]));
        }
        if let Some(it) = tcx.get_diagnostic_item(sym::Iterator) {
            for d in tcx.traits(it.krate) {
                if tcx.item_name(*d).as_str() == "DoubleEndedIterator" {
                    traits.push((*d, vec!["next_back"]));
                }
            }
        }
        if let Some(d) = tcx.get_diagnostic_item(sym::IntoIterator) {
            traits.push((d, vec!["into_iter"]));
        }
        for (tr, methods) in traits {
            use rustc_infer::infer::TyCtxtInferExt;
            use rustc_trait_selection::infer::InferCtxtExt;
            let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
            if !infcx.type_implements_trait(tr, [ity], penv).must_apply_modulo_regions() {
                continue;
            }
            for m in methods {
                let item = tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == m);
                let Some(item) = item else { continue };
                let args = tcx.mk_args(&[ity.into()]);
                if let Ok(Some(inst)) = rustc_middle::ty::Instance::try_resolve(tcx, env, item.def_id, args) {
                    let si = rustc_internal::stable(inst);
                    let id = self.inst(si);
                    out.push(format!("{}:{}", esc(m), id));
                }
            }
        }
        self.companions.insert(ti, format!("{{{}}}", out.join(",")));
    }
}

fn skip_body(name: &str) -> bool {
    const P: &[&str] = &[
        "std::fmt::", "core::fmt::", "alloc::fmt::", "std::panicking::", "core::panicking::", "std::rt::", "std::backtrace",
        "std::io::", "std::thread::", "std::sys::", "std::alloc::", "alloc::alloc::", "std::sync::",
        "<std::fmt::", "std::string::String::from_utf8", "std::process",
    ];
    // the constructors of format arguments name the formatting function of the value
    if name.contains("rt::Argument") && name.contains(">::new_") { return false; }
    // the same items seen through a re-export of another crate
    let mut segs = name.trim_start_matches('<').split("::").skip(1);
    if segs.next().map_or(false, |x| x.starts_with("__private")) && segs.next() == Some("fmt") { return true; }
    P.iter().any(|p| name.starts_with(p))
}

fn drain<'t>(cx: &mut Cx<'t>, bodies: &mut Vec<String>, tcx: TyCtxt<'t>) {
    while let Some(i) = cx.queue.pop_front() {
        let name = i.name();
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic => "llvm".to_string(),
            InstanceKind::Virtual { idx } => format!("virtual{}", idx),
            InstanceKind::Shim => "shim".to_string(),
        };
        let args = i.args();
        for a in args.0.iter() {
            if let GenericArgKind::Type(t) = a {
                cx.companion(*t);
            }
        }
        let mut drop_shim = false;
        if kind == "shim" && name.starts_with("std::ptr::drop_in_place") || name.contains("drop_glue") {
            drop_shim = true;
        }
        const FAR: &[&str] = &["getrandom", "libc", "rand_chacha", "ppv_lite86", "std_detect", "hashbrown"];
        let body = if drop_shim || FAR.contains(&i.def.krate().name.as_str()) || skip_body(&name) || bodies.len() > 9000 || kind == "intrinsic" || kind == "llvm" || kind.starts_with("virtual") {
            None
        } else {
            i.body()
        };
        let argsj = cx.args_json(&args);
        let def = i.def;
        let defname = def.name();
        let did = rustc_internal::internal(tcx, def.def_id());
        let cr = def.krate().name;
        let sp = def.span();
        let file = sp.get_filename();
        let line = sp.get_lines().start_line;
        let local = cr.starts_with("rabe");
        let is_unsafe = tcx.def_kind(did).is_fn_like() && !tcx.is_closure_like(did) && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        // trait-impl coordinates, so contracts attach to trait methods and not to text
        let mut tr = "null".to_string();
        if let Some(imp) = tcx.impl_of_assoc(did) {
            if tcx.impl_opt_trait_ref(imp).is_some() {
                let tref = tcx.impl_trait_ref(imp).skip_binder();
                tr = format!("[{},{}]", esc(&tcx.def_path_str(tref.def_id)), esc(tcx.item_name(did).as_str()));
            }
        } else if let Some(t) = tcx.trait_of_assoc(did) {
            tr = format!("[{},{}]", esc(&tcx.def_path_str(t)), esc(tcx.item_name(did).as_str()));
        }
        let bj = match &body {
            Some(b) => cx.body(b),
            None => "null".into(),
        };
        let intr = i.intrinsic_name().map(|s| esc(&s)).unwrap_or("null".into());
        let foreign = i.is_foreign_item();
        let id = bodies.len();
        bodies.push(format!(
            "{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"intrinsic\":{},\"file\":{},\"line\":{},\"args\":{},\"trait\":{},\"local\":{},\"unsafe\":{},\"foreign\":{},\"body\":{}}}",
            id, esc(&name), esc(&defname), esc(&cr), kind, intr, esc(&file), line, argsj, tr, local, is_unsafe, foreign, bj
        ));
    }
}

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let krate = rustc_public::local_crate().name;
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "roots".into());
    if krate != want {
        return ControlFlow::Continue(());
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cx = Cx {
        tcx, tys: HashMap::new(), tyjson: vec![], insts: HashMap::new(), queue: VecDeque::new(), order: vec![],
        companions: HashMap::new(), alloc_depth: 0, drops: HashMap::new(),
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        let name = item.name();
        let last = name.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("root_") {
            if let Ok(i) = Instance::try_from(item) {
                let id = cx.inst(i);
                roots.push(format!("{}:{}", esc(&last), id));
            }
        }
    }
    let mut bodies: Vec<String> = vec![];
    drain(&mut cx, &mut bodies, tcx);
    // what no root reaches: the crate's other functions, for the contracts of internal routines
    let live = bodies.len();
    let params: Vec<Ty> = {
        let mut v: Vec<(String, Ty)> = cx.tys.keys().filter_map(|t| match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) if ["G1Params", "G2Params"].contains(&d.name().rsplit("::").next().unwrap_or("")) => Some((d.name(), *t)),
            _ => None,
        }).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v.dedup_by(|a, b| a.0 == b.0);
        v.into_iter().map(|x| x.1).collect()
    };
    let mut fns = vec![];
    for c in rustc_public::find_crates("rabe_bn") {
        fns.extend(c.fn_defs());
    }
    for f in fns {
        let did = rustc_internal::internal(tcx, f.def_id());
        if tcx.trait_of_assoc(did).is_some() {
            continue;
        }
        let gs = tcx.generics_of(did);
        let n = gs.count();
        let kinds: Vec<bool> = (0..n).map(|k| matches!(gs.param_at(k, tcx).kind, rustc_middle::ty::GenericParamDefKind::Lifetime)).collect();
        let ntypes = kinds.iter().filter(|l| !**l).count();
        let choices: Vec<Option<Ty>> = match ntypes {
            0 => vec![None],
            1 => {
                let bounded = tcx.param_env(did).caller_bounds().any(|p| format!("{:?}", p).contains("GroupParams"));
                if bounded { params.iter().map(|t| Some(*t)).collect() } else { vec![] }
            }
            _ => vec![],
        };
        for ch in choices {
            let ga = GenericArgs(kinds.iter().map(|l| if *l { GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }) } else { GenericArgKind::Type(ch.unwrap()) }).collect());
            if let Ok(i) = Instance::resolve(f, &ga) {
                cx.inst(i);
            }
        }
    }
    drain(&mut cx, &mut bodies, tcx);
    let mut comp: Vec<String> = cx.companions.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    comp.sort();
    let mut dr: Vec<String> = cx.drops.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    dr.sort();
    let js = format!(
        "{{\"crate\":{},\"live\":{},\"roots\":{{{}}},\"types\":{},\"insts\":{},\"companions\":{{{}}},\"drops\":{{{}}}}}",
        esc(&krate), live, roots.join(","), list(cx.tyjson.iter().cloned()), list(bodies), comp.join(","), dr.join(",")
    );
    std::fs::write(&out, js).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let r = rustc_public::run_with_tcx!(&args, dump);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
