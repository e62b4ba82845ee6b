//! RUSTC_WRAPPER that, for the crate named in MIRDUMP_CRATE, writes the monomorphised MIR of
//! everything reachable from that crate's functions to MIRDUMP_OUT as JSON.
//! Every other crate is compiled by the real rustc unchanged.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateItem;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    ty_ids: HashMap<Ty, usize>,
    ty_json: Vec<Option<String>>,
    ty_queue: VecDeque<(Ty, usize)>,
    fn_ids: HashMap<Instance, usize>,
    fn_queue: VecDeque<(Instance, usize)>,
    fn_json: Vec<String>,
    std_allow: Vec<String>,
}

const LOCAL_CRATES: &[&str] = &["piston_meta", "piston_meta_search", "read_token", "range", "roots"];

fn span_str(sp: &Span) -> String {
    let li = sp.get_lines();
    format!("{}:{}:{}", sp.get_filename(), li.start_line, li.start_col)
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.ty_ids.get(&t) { return i; }
        let i = self.ty_json.len();
        self.ty_ids.insert(t, i);
        self.ty_json.push(None);
        self.ty_queue.push_back((t, i));
        i
    }

    fn garg(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => "null".into(),
                }),
            }
        }
        format!("[{}]", v.join(","))
    }

    fn emit_ty(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let r = match kind.rigid() {
            Some(r) => r.clone(),
            None => return format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{}", t))),
        };
        let s = esc(&format!("{}", t));
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"signed\":true,\"bits\":{}}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"signed\":false,\"bits\":{}}}", i.num_bytes() * 8),
            RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => {
                let l = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"of\":{},\"len\":{}}}", self.ty(e), l)
            }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"of\":{}}}", self.ty(e)),
            RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"to\":{},\"mut\":{}}}", self.ty(e), m == Mutability::Mut),
            RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"to\":{},\"mut\":{}}}", self.ty(e), m == Mutability::Mut),
            RigidTy::Tuple(es) => {
                let v: Vec<String> = es.iter().map(|e| self.ty(*e).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"els\":[{}]}}", v.join(","))
            }
            RigidTy::FnDef(d, a) => {
                let c = self.callee(d, &a);
                format!("{{\"k\":\"fndef\",\"s\":{},\"callee\":{}}}", s, c)
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", s),
            RigidTy::Closure(d, a) => {
                let inst = Instance::resolve_closure(d, &a, ClosureKind::FnMut)
                    .ok().map(|i| self.inst(i)).unwrap_or("null".into());
                let mut up = "[]".to_string();
                if let Some(GenericArgKind::Type(t)) = a.0.last() {
                    if let Some(RigidTy::Tuple(es)) = t.kind().rigid() {
                        let v: Vec<String> = es.iter().map(|e| self.ty(*e).to_string()).collect();
                        up = format!("[{}]", v.join(","));
                    }
                }
                format!("{{\"k\":\"closure\",\"s\":{},\"name\":{},\"fn\":{},\"upvars\":{}}}",
                    s, esc(&d.name().to_string()), inst, up)
            }
            RigidTy::Adt(d, a) => {
                let mut vs = vec![];
                let is_enum = d.kind().is_enum();
                for v in d.variants_iter() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        fs.push(format!("[{},{}]", esc(&f.name.to_string()), self.ty(ft)));
                    }
                    let discr = if is_enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                        esc(&v.name().to_string()), discr, fs.join(",")));
                }
                let args = self.garg(&a);
                format!("{{\"k\":\"adt\",\"s\":{},\"name\":{},\"crate\":{},\"enum\":{},\"box\":{},\"args\":{},\"variants\":[{}]}}",
                    s, esc(&d.name().to_string()), esc(&d.krate().name.to_string()), is_enum, d.is_box(), args, vs.join(","))
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", s),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", s),
        }
    }

    fn inst(&mut self, i: Instance) -> String {
        if let Some(&id) = self.fn_ids.get(&i) { return id.to_string(); }
        let id = self.fn_json.len();
        self.fn_ids.insert(i, id);
        self.fn_json.push(String::new());
        self.fn_queue.push_back((i, id));
        id.to_string()
    }

    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let def = d.name().to_string();
        let args = self.garg(a);
        let inst = match Instance::resolve(d, a) {
            Ok(i) => self.inst(i),
            Err(_) => "null".into(),
        };
        format!("{{\"def\":{},\"crate\":{},\"args\":{},\"inst\":{}}}", esc(&def),
            esc(&d.krate().name.to_string()), args, inst)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } =>
                    format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(i) => format!("[\"v\",{}]", i.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn read_uint(al: &Allocation, off: usize, n: usize) -> Option<u128> {
        al.read_partial_uint(off..off + n).ok()
    }

    /// Decodes a constant of type `t` at `off` in `al`.
    fn decode(&mut self, t: Ty, al: &Allocation, off: usize, depth: usize) -> String {
        let fail = "null".to_string();
        if depth > 12 { return fail; }
        let tid = self.ty(t);
        let kind = t.kind();
        let r = match kind.rigid() { Some(r) => r.clone(), None => return fail };
        match r {
            RigidTy::Bool => match Self::read_uint(al, off, 1) { Some(x) => format!("{{\"b\":{}}}", x != 0), None => fail },
            RigidTy::Char => match Self::read_uint(al, off, 4) { Some(x) => format!("{{\"ch\":{}}}", x), None => fail },
            RigidTy::Uint(u) => match Self::read_uint(al, off, u.num_bytes()) {
                Some(x) => format!("{{\"i\":{},\"t\":{}}}", x, tid), None => fail },
            RigidTy::Int(u) => match Self::read_uint(al, off, u.num_bytes()) {
                Some(x) => {
                    let bits = u.num_bytes() * 8;
                    let v = if bits == 128 { x as i128 } else {
                        let sh = 128 - bits; ((x << sh) as i128) >> sh };
                    format!("{{\"i\":{},\"t\":{}}}", v, tid)
                } None => fail },
            RigidTy::Float(f) => {
                let n = match f { FloatTy::F16 => 2, FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F128 => 16 };
                match Self::read_uint(al, off, n) { Some(x) => format!("{{\"fl\":{}}}", x), None => fail }
            }
            RigidTy::FnDef(..) | RigidTy::Never => format!("{{\"zst\":{}}}", tid),
            RigidTy::Closure(_, a) => {
                let _ = a;
                format!("{{\"zst\":{}}}", tid)
            }
            RigidTy::Array(e, n) => {
                let len = match n.eval_target_usize() { Ok(l) => l as usize, Err(_) => return fail };
                if len > 4096 { return fail; }
                let sz = match e.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return fail };
                let v: Vec<String> = (0..len).map(|i| self.decode(e, al, off + i * sz, depth + 1)).collect();
                format!("{{\"arr\":[{}],\"t\":{}}}", v.join(","), tid)
            }
            RigidTy::Tuple(es) => {
                let lay = match t.layout() { Ok(l) => l.shape(), Err(_) => return fail };
                let offs = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
                let v: Vec<String> = es.iter().enumerate().map(|(i, e)| {
                    let o = offs.get(i).map(|x| x.bytes()).unwrap_or(0);
                    self.decode(*e, al, off + o, depth + 1)
                }).collect();
                format!("{{\"agg\":[{}],\"t\":{},\"v\":0}}", v.join(","), tid)
            }
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1.clone());
                let addr = match Self::read_uint(al, off, 8) { Some(x) => x as usize, None => return fail };
                let meta = Self::read_uint(al, off + 8, 8).map(|x| x as usize);
                let prov = match prov { Some(p) => p, None => return format!("{{\"addr\":{},\"t\":{}}}", addr, tid) };
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => self.decode_pointee(to, &m, addr, meta, tid, depth),
                    GlobalAlloc::Static(sd) => {
                        let nm = sd.name().to_string();
                        format!("{{\"static\":{},\"t\":{}}}", esc(&nm), tid)
                    }
                    GlobalAlloc::Function(i) => { let id = self.inst(i); format!("{{\"fnp\":{}}}", id) }
                    _ => fail,
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1.clone());
                if let Some(p) = prov {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        let id = self.inst(i);
                        return format!("{{\"fnp\":{}}}", id);
                    }
                }
                fail
            }
            RigidTy::Adt(d, a) => {
                let lay = match t.layout() { Ok(l) => l.shape(), Err(_) => return fail };
                if d.kind().is_enum() {
                    let (vidx, offs): (usize, Vec<usize>) = match &lay.variants {
                        VariantsShape::Empty => return fail,
                        VariantsShape::Single { index } => {
                            let offs = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(), _ => vec![] };
                            (index.to_index(), offs)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                            let tval = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                                rustc_public::abi::Scalar::Union { value } => *value,
                            };
                            let tsz = tval.size(&rustc_public::target::MachineInfo::target()).bytes();
                            let is_ptr = al.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let raw = match Self::read_uint(al, off + toff, tsz) { Some(x) => x, None => return fail };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    match d.variants_iter().find(|v| d.discriminant_for_variant(v.idx()).val & mask == raw) {
                                        Some(v) => v.idx().to_index(), None => return fail }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let s = niche_variants.start().to_index() as u128;
                                    let e = niche_variants.end().to_index() as u128;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    if !is_ptr && rel <= e - s { (s + rel) as usize } else { untagged_variant.to_index() }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                        }
                    };
                    let vd = d.variants()[vidx];
                    let mut v = vec![];
                    for (i, f) in vd.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&a);
                        v.push(self.decode(ft, al, off + offs.get(i).copied().unwrap_or(0), depth + 1));
                    }
                    format!("{{\"agg\":[{}],\"t\":{},\"v\":{}}}", v.join(","), tid, vidx)
                } else {
                    let offs: Vec<usize> = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(), _ => vec![] };
                    let vd = d.variants()[0];
                    let mut v = vec![];
                    for (i, f) in vd.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&a);
                        v.push(self.decode(ft, al, off + offs.get(i).copied().unwrap_or(0), depth + 1));
                    }
                    format!("{{\"agg\":[{}],\"t\":{},\"v\":0}}", v.join(","), tid)
                }
            }
            _ => fail,
        }
    }

    fn decode_pointee(&mut self, to: Ty, m: &Allocation, addr: usize, meta: Option<usize>, tid: usize, depth: usize) -> String {
        match to.kind().rigid() {
            Some(RigidTy::Str) => {
                let len = meta.unwrap_or(0);
                let b: Vec<u8> = m.bytes[addr..addr + len].iter().map(|x| x.unwrap_or(0)).collect();
                format!("{{\"str\":{},\"t\":{}}}", esc(&String::from_utf8_lossy(&b)), tid)
            }
            Some(RigidTy::Slice(e)) => {
                let len = meta.unwrap_or(0);
                let sz = match e.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return "null".into() };
                if len > 4096 { return "null".into(); }
                let e = *e;
                let v: Vec<String> = (0..len).map(|i| self.decode(e, m, addr + i * sz, depth + 1)).collect();
                format!("{{\"slice\":[{}],\"t\":{}}}", v.join(","), tid)
            }
            _ => {
                let x = self.decode(to, m, addr, depth + 1);
                format!("{{\"ref\":{},\"t\":{}}}", x, tid)
            }
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => format!("{{\"zst\":{}}}", tid),
            ConstantKind::Allocated(al) => {
                let al = al.clone();
                self.decode(t, &al, 0, 0)
            }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"i\":{},\"t\":{}}}", n, tid),
                Err(_) => match tc.kind() {
                    TyConstKind::Value(t2, al) => { let (t2, al) = (*t2, al.clone()); self.decode(t2, &al, 0, 0) }
                    TyConstKind::ZSTValue(_) => format!("{{\"zst\":{}}}", tid),
                    _ => "null".into(),
                },
            },
            _ => "null".into(),
        }
    }

    fn oper(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                format!("[\"k\",{},{}]", t, self.konst(&c.const_))
            }
            Operand::RuntimeChecks(k) => format!("[\"rc\",\"{:?}\"]", k),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.oper(o)).collect();
                let t = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let (kk, vi) = match k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, vi, _, _, uf) => (if uf.is_some() { "union" } else { "adt" }, vi.to_index()),
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                format!("[\"agg\",\"{}\",{},{},[{}]]", kk, t, vi, v.join(","))
            }
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.oper(a), self.oper(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{:?}\",{},{}]", op, self.oper(a), self.oper(b)),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{},{}]", esc(&ks), self.oper(o), self.ty(*t), ft)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.oper(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name().to_string())),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.oper(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.oper(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
        }
    }

    fn assert_msg(&mut self, m: &AssertMessage) -> String {
        match m {
            AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.oper(len), self.oper(index)),
            AssertMessage::Overflow(op, a, b) => format!("[\"overflow\",\"{:?}\",{},{}]", op, self.oper(a), self.oper(b)),
            AssertMessage::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.oper(a)),
            AssertMessage::DivisionByZero(a) => format!("[\"div0\",{}]", self.oper(a)),
            AssertMessage::RemainderByZero(a) => format!("[\"rem0\",{}]", self.oper(a)),
            o => format!("[\"other\",{}]", esc(&format!("{:?}", std::mem::discriminant(o)))),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, esc(&v.name.to_string())));
            }
        }
        let mut bs = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pp = self.place(p);
                        let rr = self.rvalue(r, &locals);
                        ss.push(format!("[{},{},{}]", pp, rr, esc(&span_str(&s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pp = self.place(place);
                        ss.push(format!("[{},[\"setdiscr\",{}],\"\"]", pp, variant_index.to_index()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[{},[\"dead\"],\"\"]", l)),
                    _ => {}
                }
            }
            let sp = esc(&span_str(&bb.terminator.source_info.span));
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let dt = discr.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"switch\",{},{},[{}],{}]", self.oper(discr), dt, br.join(","), targets.otherwise())
                }
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let av: Vec<String> = args.iter().map(|a| self.oper(a)).collect();
                    let at: Vec<String> = args.iter().map(|a| a.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into())).collect();
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind().rigid() {
                            Some(RigidTy::FnDef(d, a)) => { let (d, a) = (*d, a.clone()); self.callee(d, &a) }
                            _ => format!("{{\"op\":{}}}", self.oper(func)),
                        },
                        _ => format!("{{\"op\":{}}}", self.oper(func)),
                    };
                    format!("[\"call\",{},[{}],{},{},[{}]]", f, av.join(","), self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()), at.join(","))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } =>
                    format!("[\"assert\",{},{},{},{}]", self.oper(cond), expected, self.assert_msg(msg), target),
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bs.push(format!("[[{}],{},{}]", ss.join(","), t, sp));
        }
        format!("\"argc\":{},\"locals\":[{}],\"names\":[{}],\"spread\":{},\"blocks\":[{}]",
            b.arg_locals().len(), lt.join(","), names.join(","),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), bs.join(","))
    }

    /// The plain-loop model (roots::models) standing for a standard library iterator consumer.
    fn model_for(&mut self, f: &Instance, def: &str) -> Option<Instance> {
        let last = def.rsplit("::").next().unwrap_or("");
        let is_iter = def.contains("std::iter::Iterator") || def.contains("std::iter::DoubleEndedIterator");
        let sig = f.ty().kind().fn_sig()?.skip_binder();
        let ins: Vec<Ty> = sig.inputs().to_vec();
        let out = sig.output();
        let strip = |t: &Ty| -> Ty {
            match t.kind().rigid() { Some(RigidTy::Ref(_, x, _)) => *x, _ => *t }
        };
        let adt = |t: &Ty| -> Option<(String, Vec<Ty>)> {
            match t.kind().rigid() {
                Some(RigidTy::Adt(d, a)) => Some((d.name().to_string(), a.0.iter().filter_map(|g| match g {
                    GenericArgKind::Type(t) => Some(*t), _ => None }).collect())),
                _ => None,
            }
        };
        let (m, args): (&str, Vec<Ty>) = if is_iter {
            match last {
                "find" | "all" | "any" | "position" if ins.len() == 2 =>
                    (match last { "find" => "m_find", "all" => "m_all", "any" => "m_any", _ => "m_position" },
                     vec![strip(&ins[0]), ins[1]]),
                "find_map" => {
                    let (_, a) = adt(&out)?;
                    ("m_find_map", vec![strip(&ins[0]), *a.first()?, ins[1]])
                }
                "count" => ("m_count", vec![ins[0]]),
                "last" => ("m_last", vec![ins[0]]),
                "nth" => ("m_nth", vec![strip(&ins[0])]),
                "fold" if def.contains("Iterator") && !def.contains("DoubleEnded") => ("m_fold", vec![ins[0], ins[1], ins[2]]),
                "for_each" => ("m_for_each", vec![ins[0], ins[1]]),
                "try_fold" => {
                    let (n, a) = adt(&out)?;
                    if n.ends_with("Result") { ("m_try_fold_result", vec![strip(&ins[0]), ins[1], *a.get(1)?, ins[2]]) }
                    else if n.ends_with("Option") { ("m_try_fold_option", vec![strip(&ins[0]), ins[1], ins[2]]) }
                    else if n.ends_with("ControlFlow") { ("m_try_fold_cf", vec![strip(&ins[0]), ins[1], *a.first()?, ins[2]]) }
                    else { return None }
                }
                _ => return None,
            }
        } else if def.starts_with("read_token::ReadToken") && last == "lines" && ins.len() == 2 {
            ("m_lines", vec![ins[1]])
        } else if def == "core::slice::<impl [T]>::contains" && ins.len() == 2 {
            ("m_contains", vec![strip(&ins[1])])
        } else if def == "std::vec::Vec::<T, A>::extend_from_slice" && ins.len() == 2 {
            let (_, a) = adt(&strip(&ins[0]))?;
            ("m_extend_from_slice", vec![*a.first()?])
        } else if def.contains("FromIterator") && last == "from_iter" {
            let (n, _) = adt(&out)?;
            if n.ends_with("vec::Vec") { ("m_from_iter_vec", vec![ins[0]]) }
            else if n.ends_with("string::String") && def.contains("<char>") { ("m_from_iter_string", vec![ins[0]]) }
            else { return None }
        } else if def.contains("std::iter::Extend") && last == "extend" {
            let (n, a) = adt(&strip(&ins[0]))?;
            if n.ends_with("vec::Vec") && !def.contains("&'a T") { ("m_extend_vec", vec![*a.first()?, ins[1]]) }
            else { return None }
        } else { return None };
        let d = rustc_public::local_crate().fn_defs().into_iter()
            .find(|d| d.name().to_string().rsplit("::").next() == Some(m))?;
        let ga = GenericArgs(args.into_iter().map(GenericArgKind::Type).collect());
        Instance::resolve(d, &ga).ok()
    }

    fn run(&mut self) {
        loop {
            if let Some((t, i)) = self.ty_queue.pop_front() {
                let s = self.emit_ty(t);
                self.ty_json[i] = Some(s);
                continue;
            }
            if let Some((f, i)) = self.fn_queue.pop_front() {
                let name = f.name().to_string();
                let def = CrateItemName(&f).name();
                let krate = f.def.krate().name.to_string();
                let local = LOCAL_CRATES.contains(&krate.as_str());
                let intr = if f.kind == InstanceKind::Intrinsic { f.intrinsic_name().map(|x| x.to_string()) } else { None };
                let span = span_str(&f.def.span());
                let want = local || (intr.is_none() && self.std_allow.iter().any(|p| span.contains(p.as_str())));
                let kind = format!("{:?}", f.kind);
                let args = self.garg(&f.args());
                let mut s = format!("{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":{},\"span\":{},\"args\":{}",
                    i, esc(&name), esc(&def), esc(&krate), esc(&kind), esc(&span), args);
                if !local || krate == "read_token" {
                    if let Some(m) = self.model_for(&f, &def) {
                        let mid = self.inst(m);
                        let _ = write!(s, ",\"model\":{}", mid);
                    }
                }
                if let Some(n) = intr { let _ = write!(s, ",\"intrinsic\":{}", esc(&n)); }
                let shim_ok = f.kind != InstanceKind::Shim;
                if want && shim_ok && !matches!(f.kind, InstanceKind::Virtual { .. }) && f.has_body() {
                    if let Some(b) = f.body() {
                        let bj = self.body(&b);
                        let _ = write!(s, ",{}", bj);
                    }
                }
                s.push('}');
                self.fn_json[i] = s;
                continue;
            }
            break;
        }
    }
}

struct CrateItemName<'a>(&'a Instance);
impl<'a> CrateItemName<'a> {
    fn name(&self) -> String { self.0.def.name().to_string() }
}

fn analyze() -> ControlFlow<(), ()> {
    let mut cx = Cx {
        ty_ids: HashMap::new(), ty_json: vec![], ty_queue: VecDeque::new(),
        fn_ids: HashMap::new(), fn_queue: VecDeque::new(), fn_json: vec![],
        std_allow: std::env::var("MIRDUMP_STD").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if it.requires_monomorphization() { continue; }
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) { continue; }
        if let Ok(i) = Instance::try_from(it) {
            let id = cx.inst(i);
            roots.push(format!("[{},{}]", esc(&it.name().to_string()), id));
        }
    }
    cx.run();
    // Inventory of every function, static and trait impl of the analysed crates.
    let mut inv = vec![];
    let mut statics = vec![];
    for c in rustc_public::external_crates() {
        let cn = c.name.to_string();
        if cn != "piston_meta" && cn != "piston_meta_search" { continue; }
        for f in c.fn_defs() {
            let sig = f.fn_sig();
            let unsafe_ = format!("{:?}", sig.skip_binder().safety) == "Unsafe";
            inv.push(format!("[{},{},{},{}]", esc(&cn), esc(&f.name().to_string()), esc(&span_str(&f.span())), unsafe_));
        }
        for s in c.statics() {
            let m = format!("{}", s.ty());
            statics.push(format!("[{},{},{}]", esc(&cn), esc(&s.name().to_string()), esc(&m)));
        }
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut s = String::from("{\"types\":[\n");
    for (i, t) in cx.ty_json.iter().enumerate() {
        if i > 0 { s.push_str(",\n"); }
        s.push_str(t.as_ref().unwrap());
    }
    s.push_str("],\n\"fns\":[\n");
    s.push_str(&cx.fn_json.join(",\n"));
    s.push_str("],\n\"roots\":[");
    s.push_str(&roots.join(","));
    s.push_str("],\n\"inventory\":[");
    s.push_str(&inv.join(",\n"));
    s.push_str("],\n\"statics\":[");
    s.push_str(&statics.join(",\n"));
    s.push_str("]}\n");
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv = [self, rustc, args...]
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    let is_print = args.iter().any(|a| a.starts_with("--print"));
    if !is_target || is_print {
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    args.remove(0);
    let r = rustc_public::run!(&args, analyze);
    match r {
        Ok(()) => {}
        Err(e) => { eprintln!("mirdump: {:?}", e); std::process::exit(101); }
    }
}

#[allow(dead_code)]
fn _unused(_: CrateItem) {}
