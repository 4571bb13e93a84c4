// Dumps, as JSON, the monomorphic MIR of every function reachable from the
// functions of the compiled (probe) crate whose name starts with `root_`.
// Nothing is interpreted here: statements, terminators, types and evaluated
// constants are written out as the compiler has them.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || ((c as u32) >= 0xd800 && (c as u32) < 0xe000) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, f: F) -> String {
    format!("[{}]", it.into_iter().map(f).collect::<Vec<_>>().join(","))
}

struct Cx {
    tys: HashMap<Ty, usize>,
    tys_out: Vec<Option<String>>,
    insts: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    stop: Vec<String>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.tys_out.len();
        self.tys.insert(t, id);
        self.tys_out.push(None);
        let s = self.ty_json(t);
        self.tys_out[id] = Some(s);
        id
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for k in &a.0 {
            match k {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Const(c) => v.push(q(&format!("const {:?}", c.eval_target_usize().ok()))),
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let disp = q(&format!("{t}"));
        let k = match t.kind() {
            TyKind::RigidTy(r) => r,
            other => return format!("{{\"k\":\"other\",\"d\":{}}}", q(&format!("{other:?}"))),
        };
        match k {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"s\":true,\"n\":{},\"d\":{}}}", i.num_bytes(), disp),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"s\":false,\"n\":{},\"d\":{}}}", i.num_bytes(), disp),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
            RigidTy::Array(e, n) => format!(
                "{{\"k\":\"array\",\"e\":{},\"n\":{}}}",
                self.ty(e),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            RigidTy::Ref(_, e, m) => {
                format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut)
            }
            RigidTy::RawPtr(e, m) => {
                format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut)
            }
            RigidTy::Tuple(v) => format!("{{\"k\":\"tuple\",\"e\":{}}}", arr(v, |t| self.ty(t).to_string())),
            RigidTy::Adt(def, ga) => {
                let a = self.args(&ga);
                let mut vs = vec![];
                for v in def.variants() {
                    let fs = arr(v.fields(), |f| {
                        let ft = f.ty_with_args(&ga);
                        format!("[{},{}]", q(&f.name.to_string()), self.ty(ft))
                    });
                    let d = if def.kind().is_enum() { def.discriminant_for_variant(v.idx()).val } else { 0 };
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", q(&v.name().to_string()), d, fs));
                }
                format!(
                    "{{\"k\":\"adt\",\"name\":{},\"d\":{},\"args\":{},\"kind\":{},\"variants\":[{}]}}",
                    q(&def.name().to_string()),
                    disp,
                    a,
                    q(&format!("{}", def.kind())),
                    vs.join(",")
                )
            }
            RigidTy::FnDef(def, ga) => {
                let inst = Instance::resolve(def, &ga).ok();
                let id = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"fndef\",\"d\":{},\"name\":{},\"inst\":{}}}", disp, q(&def.name().to_string()), id)
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::Closure(def, ga) => {
                let inst = Instance::resolve_closure(def, &ga, ClosureKind::FnOnce).ok();
                let id = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                // the upvar tuple is the last generic argument
                let up = ga.0.last().and_then(|k| k.ty().copied());
                let up = up.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!(
                    "{{\"k\":\"closure\",\"d\":{},\"name\":{},\"inst\":{},\"up\":{}}}",
                    disp,
                    q(&def.name().to_string()),
                    id,
                    up
                )
            }
            other => format!("{{\"k\":\"other\",\"d\":{}}}", q(&format!("{other:?}"))),
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(n) = self.insts.get(&i) {
            return *n;
        }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.queue.push_back((n, i));
        n
    }
    // ---- constants
    fn decode(&mut self, t: Ty, al: &Allocation, off: usize) -> Option<String> {
        let id = self.ty(t);
        let k = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return None,
        };
        let uint = |n: usize| al.read_partial_uint(off..off + n).ok();
        Some(match k {
            RigidTy::Bool => format!("{{\"c\":\"bool\",\"v\":{}}}", uint(1)? != 0),
            RigidTy::Char => format!("{{\"c\":\"char\",\"v\":{}}}", uint(4)?),
            RigidTy::Uint(i) => format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", uint(i.num_bytes())?, id),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                let v = uint(n)?;
                let sh = 128 - 8 * n as u32;
                format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", ((v << sh) as i128) >> sh, id)
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let (_, p) = al.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
                let inner_off = uint(8)? as usize;
                let a2 = match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(a) => a,
                    GlobalAlloc::Static(s) => {
                        let a = s.eval_initializer().ok()?;
                        // what can change is no constant
                        if a.mutability == Mutability::Mut {
                            return None;
                        }
                        a
                    }
                    _ => return None,
                };
                let len = || al.read_partial_uint(off + 8..off + 16).ok().map(|x| x as usize);
                match e.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = len()?;
                        let b: Option<Vec<u8>> = a2.bytes[inner_off..inner_off + n].iter().copied().collect();
                        let s = String::from_utf8(b?).ok()?;
                        format!("{{\"c\":\"str\",\"v\":{}}}", q(&s))
                    }
                    TyKind::RigidTy(RigidTy::Slice(el)) => {
                        let n = len()?;
                        let sz = el.layout().ok()?.shape().size.bytes();
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(self.decode(el, &a2, inner_off + i * sz)?);
                        }
                        format!("{{\"c\":\"slice\",\"v\":[{}],\"t\":{}}}", v.join(","), id)
                    }
                    _ => {
                        let inner = self.decode(e, &a2, inner_off)?;
                        format!("{{\"c\":\"ref\",\"v\":{},\"t\":{}}}", inner, id)
                    }
                }
            }
            RigidTy::Array(el, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let sz = el.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(el, al, off + i * sz)?);
                }
                format!("{{\"c\":\"slice\",\"v\":[{}],\"t\":{}}}", v.join(","), id)
            }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let mut v = vec![];
                for (i, e) in ts.iter().enumerate() {
                    let o = match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => offsets[i].bytes(),
                        _ => 0,
                    };
                    v.push(self.decode(*e, al, off + o)?);
                }
                format!("{{\"c\":\"agg\",\"v\":[{}],\"t\":{},\"variant\":0}}", v.join(","), id)
            }
            RigidTy::Adt(def, ga) => {
                let sh = t.layout().ok()?.shape();
                let offs = |f: &FieldsShape, i: usize| match f {
                    FieldsShape::Arbitrary { offsets } => offsets[i].bytes(),
                    _ => 0,
                };
                let mut own: Option<Vec<usize>> = None;
                let vi = match &sh.variants {
                    VariantsShape::Empty => return None,
                    VariantsShape::Single { index } => *index,
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        use rustc_public::abi::{Primitive, Scalar, TagEncoding};
                        let prim = match tag {
                            Scalar::Initialized { value, .. } => value,
                            Scalar::Union { value } => value,
                        };
                        let n = match prim {
                            Primitive::Int { length, .. } => length.bits() / 8,
                            Primitive::Pointer(_) => 8,
                            _ => return None,
                        };
                        let o = off + offs(&sh.fields, *tag_field);
                        let ptr = al.provenance.ptrs.iter().any(|(p, _)| *p == o);
                        let v = match tag_encoding {
                            TagEncoding::Direct => {
                                let tagv = al.read_partial_uint(o..o + n).ok()?;
                                def.variants().into_iter().find(|v| def.discriminant_for_variant(v.idx()).val == tagv)?.idx()
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let (lo, hi) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                                let ix = if ptr {
                                    untagged_variant.to_index()
                                } else {
                                    let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    let rel = al.read_partial_uint(o..o + n).ok()?.wrapping_sub(*niche_start) & mask;
                                    if rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index() }
                                };
                                def.variants().into_iter().find(|v| v.idx().to_index() == ix)?.idx()
                            }
                        };
                        own = Some(variants[v.to_index()].offsets.iter().map(|x| x.bytes()).collect());
                        v
                    }
                };
                let var = def.variants().into_iter().find(|v| v.idx() == vi)?;
                let mut v = vec![];
                for (i, f) in var.fields().iter().enumerate() {
                    let o = match &own {
                        Some(x) => x[i],
                        None => offs(&sh.fields, i),
                    };
                    v.push(self.decode(f.ty_with_args(&ga), al, off + o)?);
                }
                format!("{{\"c\":\"agg\",\"v\":[{}],\"t\":{},\"variant\":{}}}", v.join(","), id, vi.to_index())
            }
            RigidTy::FnDef(..) => format!("{{\"c\":\"zst\",\"t\":{}}}", id),
            RigidTy::Closure(_, ref ga) => {
                let up = ga.0.last().and_then(|k| k.ty().copied())?;
                match up.kind() {
                    TyKind::RigidTy(RigidTy::Tuple(ts)) if ts.is_empty() => format!("{{\"c\":\"zst\",\"t\":{}}}", id),
                    _ => return None,
                }
            }
            _ => return None,
        })
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let id = self.ty(t);
        let r = match c.kind() {
            ConstantKind::ZeroSized => Some(format!("{{\"c\":\"zst\",\"t\":{}}}", id)),
            ConstantKind::Allocated(a) => {
                let z = t.layout().map(|l| l.shape().size.bytes() == 0).unwrap_or(false);
                if z { Some(format!("{{\"c\":\"zst\",\"t\":{}}}", id)) } else { self.decode(t, a, 0) }
            }
            ConstantKind::Ty(tc) => tc
                .eval_target_usize()
                .ok()
                .map(|v| format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", v, id)),
            _ => None,
        };
        r.unwrap_or_else(|| format!("{{\"c\":\"unknown\",\"t\":{},\"d\":{}}}", id, q(&format!("{:?}", c))))
    }
    // ---- bodies
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"field\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"down\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"opaque\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"c\":{}}}", self.konst(&c.const_)),
            Operand::RuntimeChecks(_) => "{\"o\":\"rtcheck\"}".into(),
        }
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(k, p) => {
                format!("{{\"r\":\"addr\",\"m\":{},\"p\":{}}}", k.to_mutable_lossy() == Mutability::Mut, self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let o = arr(ops, |x| self.op(x));
                let t = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let (kn, vi) = match k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, None) => ("adt", v.to_index()),
                    AggregateKind::Closure(..) => ("closure", 0),
                    _ => ("other", 0),
                };
                format!("{{\"r\":\"agg\",\"k\":\"{}\",\"variant\":{},\"t\":{},\"ops\":{}}}", kn, vi, t, o)
            }
            Rvalue::BinaryOp(b, x, y) => format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"cbin\",\"op\":\"{:?}\",\"t\":{},\"a\":{},\"b\":{}}}", b, t, self.op(x), self.op(y))
            }
            Rvalue::Cast(k, x, t) => format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"t\":{}}}", q(&format!("{k:?}")), self.op(x), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"discr\",\"p\":{},\"t\":{}}}", self.place(p), t)
            }
            Rvalue::Len(p) => format!("{{\"r\":\"len\",\"p\":{}}}", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"m\":{},\"p\":{}}}",
                bk.to_mutable_lossy() == Mutability::Mut,
                self.place(p)
            ),
            Rvalue::Repeat(x, n) => format!(
                "{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}",
                self.op(x),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::UnaryOp(u, x) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", u, self.op(x)),
            Rvalue::Use(x, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.op(x)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", *m == Mutability::Mut, self.place(p)),
            other => format!("{{\"r\":\"other\",\"d\":{}}}", q(&format!("{other:?}"))),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let ls = arr(&locals, |l| self.ty(l.ty).to_string());
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(format!("[\"=\",{},{}]", self.place(p), self.rv(r, &locals))),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setdiscr\",{},{}]", self.place(place), variant_index.to_index()))
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => st.push("[\"unsupported\",\"copy_nonoverlapping\"]".into()),
                    _ => {}
                }
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"t\":\"goto\",\"to\":{}}}", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        "{{\"t\":\"switch\",\"on\":{},\"ty\":{},\"cases\":{},\"else\":{}}}",
                        self.op(discr),
                        dt,
                        arr(targets.branches(), |(v, b)| format!("[{},{}]", v, b)),
                        targets.otherwise()
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{}}}", self.place(place), t, target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let to = target.map(|x| x.to_string()).unwrap_or("null".into());
                    let rt = destination.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"args\":{},\"argtys\":{},\"dest\":{},\"rty\":{},\"to\":{}}}",
                        self.op(func),
                        arr(args, |a| self.op(a)),
                        arr(args, |a| a.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into())),
                        self.place(destination),
                        rt,
                        to
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "{{\"t\":\"assert\",\"cond\":{},\"expected\":{},\"msg\":{},\"to\":{}}}",
                    self.op(cond),
                    expected,
                    q(msg.description().unwrap_or("assert")),
                    target
                ),
                TerminatorKind::InlineAsm { .. } => "{\"t\":\"asm\"}".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{}}}", st.join(","), t, bb.terminator.source_info.span.get_lines().start_line));
        }
        format!(
            "{{\"locals\":{},\"argc\":{},\"spread\":{},\"blocks\":[{}]}}",
            ls,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            blocks.join(",")
        )
    }
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("EXTRACT_OUT").expect("EXTRACT_OUT");
    let stop: Vec<String> = std::fs::read_to_string(std::env::var("EXTRACT_STOP").expect("EXTRACT_STOP"))
        .expect("stop list")
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let mut cx = Cx { tys: HashMap::new(), tys_out: vec![], insts: HashMap::new(), queue: VecDeque::new(), stop };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let n = it.trimmed_name().to_string();
        if n.split("::").last().unwrap().starts_with("root_") {
            if let Ok(i) = Instance::try_from(it) {
                let id = cx.inst(i);
                roots.push(format!("[{},{}]", q(&n), id));
            }
        }
    }
    let mut outi: Vec<(usize, String)> = vec![];
    while let Some((id, i)) = cx.queue.pop_front() {
        let name = i.name().to_string();
        let defname = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let stopped = cx.stop.iter().any(|p| {
            if let Some(p) = p.strip_suffix('*') { defname.starts_with(p) } else { defname == *p }
        });
        let ga = i.args();
        let args = cx.args(&ga);
        let intr = i.intrinsic_name().map(|s| s.to_string());
        let lines = i.def.span().get_lines();
        let file = i.def.span().get_filename();
        let body = if stopped || intr.is_some() || i.kind == (InstanceKind::Virtual { idx: 0 }) || outi.len() > 20000 {
            None
        } else {
            i.body()
        };
        let bj = match body {
            Some(b) => cx.body(&b),
            None => "null".into(),
        };
        outi.push((
            id,
            format!(
                "{{\"name\":{},\"def\":{},\"crate\":{},\"args\":{},\"kind\":{},\"intrinsic\":{},\"file\":{},\"line\":{},\"body\":{}}}",
                q(&name),
                q(&defname),
                q(&krate),
                args,
                q(&format!("{:?}", i.kind)),
                intr.map(|s| q(&s)).unwrap_or("null".into()),
                q(&file.to_string()),
                lines.start_line,
                bj
            ),
        ));
    }
    outi.sort();
    // types with a destructor of their own, outside std
    let mut drops = vec![];
    for c in rustc_public::external_crates() {
        if ["std", "core", "alloc"].contains(&&*c.name.to_string()) {
            continue;
        }
        for i in c.trait_impls() {
            let t = i.trait_impl().value;
            if t.def_id.name().to_string().ends_with("ops::Drop") {
                if let TyKind::RigidTy(RigidTy::Adt(def, _)) = t.self_ty().kind() {
                    drops.push(q(&def.name().to_string()));
                }
            }
        }
    }
    let s = format!(
        "{{\"drops\":[{}],\n\"roots\":[{}],\n\"types\":[{}],\n\"insts\":[{}]}}\n",
        drops.join(","),
        roots.join(","),
        cx.tys_out.iter().map(|x| x.clone().unwrap()).collect::<Vec<_>>().join(",\n"),
        outi.into_iter().map(|(_, s)| s).collect::<Vec<_>>().join(",\n")
    );
    std::fs::write(out, s).expect("write");
    ControlFlow::Break(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = run!(&args, dump);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(e) => {
            eprintln!("extract: {e:?}");
            std::process::exit(1);
        }
    }
}
