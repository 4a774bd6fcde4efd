//! rustc driver: dumps the monomorphic MIR reachable from the public functions of the
//! crate being compiled (the `roots` crate) as JSON.  Output path: $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::crate_def::CrateDefType;
use rustc_public::CrateDef;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct D {
    inst_ids: HashMap<Instance, usize>,
    inst_out: Vec<String>,
    queue: VecDeque<(usize, Instance)>,
    ty_ids: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    alloc_ids: HashMap<AllocId, usize>,
    alloc_out: Vec<String>,
}

const STOP: &[&str] = &[
    "core::fmt::", "std::fmt::", "alloc::fmt::", "core::panicking::", "std::panicking::", "alloc::raw_vec::",
    "alloc::alloc::", "std::alloc::", "core::alloc::", "std::sync::", "std::sys::", "std::io::", "std::thread::",
    "core::num::imp::", "core::num::dec2flt", "core::unicode", "memchr::", "core::slice::memchr", "bytecount::",
    "core::str::pattern", "core::slice::sort", "lazy_static::",
];

impl D {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&id) = self.inst_ids.get(&i) {
            return id;
        }
        let id = self.inst_out.len();
        self.inst_ids.insert(i, id);
        self.inst_out.push(String::new());
        self.queue.push_back((id, i));
        id
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&id) = self.ty_ids.get(&t) {
            return id;
        }
        let id = self.ty_out.len();
        self.ty_ids.insert(t, id);
        self.ty_out.push(String::new());
        let s = self.ty_str(t);
        self.ty_out[id] = s;
        id
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|x| match x {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(format!("{{\"const\":{}}}", c.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into()))),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        arr(&v)
    }
    fn layout(&mut self, t: Ty) -> String {
        match t.layout() {
            Ok(l) => {
                let sh = l.shape();
                let f = match &sh.fields {
                    FieldsShape::Primitive => "[]".to_string(),
                    FieldsShape::Union(_) => "null".to_string(),
                    FieldsShape::Array { stride, count } => format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count),
                    FieldsShape::Arbitrary { offsets } => arr(&offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>()),
                };
                let v = match &sh.variants {
                    VariantsShape::Empty => "{\"k\":\"empty\"}".to_string(),
                    VariantsShape::Single { index } => format!("{{\"k\":\"single\",\"index\":{}}}", index.to_index()),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let tagsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => match value {
                                rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                                rustc_public::abi::Primitive::Float { length } => length.bits() / 8,
                                rustc_public::abi::Primitive::Pointer(_) => 8,
                            },
                        };
                        let enc = match tag_encoding {
                            TagEncoding::Direct => "\"direct\"".to_string(),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                                "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":\"{}\"}}",
                                untagged_variant.to_index(),
                                niche_variants.start().to_index(),
                                niche_variants.end().to_index(),
                                niche_start
                            ),
                        };
                        let vs: Vec<String> = variants
                            .iter()
                            .map(|v| arr(&v.offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>()))
                            .collect();
                        format!("{{\"k\":\"multi\",\"tagsz\":{},\"field\":{},\"enc\":{},\"variants\":{}}}", tagsz, tag_field, enc, arr(&vs))
                    }
                };
                format!("{{\"size\":{},\"fields\":{},\"variants\":{}}}", sh.size.bytes(), f, v)
            }
            Err(_) => "null".to_string(),
        }
    }
    fn ty_str(&mut self, t: Ty) -> String {
        let name = { let n = format!("{}", t); js(&n.chars().take(160).collect::<String>()) };
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"w\":{}", i.num_bytes()),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"w\":{}", i.num_bytes()),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"n\":{}", js(&format!("{:?}", f))),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Adt(def, args) => {
                    let path = js(&def.name());
                    let krate = js(&def.krate().name);
                    let kind = format!("{:?}", def.kind());
                    let a = self.gargs(&args);
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let discr = if matches!(def.kind(), AdtKind::Enum) { def.discriminant_for_variant(v.idx()).val } else { 0 };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", js(&f.name), self.ty(ft)));
                        }
                        vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}", js(&v.name()), discr, arr(&fs)));
                    }
                    let lay = self.layout(t);
                    format!(
                        "\"k\":\"adt\",\"path\":{},\"crate\":{},\"kind\":{},\"box\":{},\"args\":{},\"variants\":{},\"layout\":{}",
                        path, krate, js(&kind), def.is_box(), a, arr(&vs), lay
                    )
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into());
                    let e = self.ty(e);
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, n)
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"elem\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"elem\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::FnDef(def, args) => {
                    let path = js(&def.name());
                    let a = self.gargs(&args);
                    match Instance::resolve(def, &args) {
                        Ok(i) => format!("\"k\":\"fndef\",\"path\":{},\"args\":{},\"inst\":{}", path, a, self.inst(i)),
                        Err(_) => format!("\"k\":\"fndef\",\"path\":{},\"args\":{},\"inst\":null", path, a),
                    }
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(def, args) => {
                    // the closure body itself: try the weakest kind first
                    let mut inst = "null".to_string();
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(i) = Instance::resolve_closure(def, &args, k) {
                            if i.kind == InstanceKind::Item {
                                inst = self.inst(i).to_string();
                                break;
                            }
                        }
                    }
                    let tys: Vec<Ty> = args.0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None }).collect();
                    // last type argument is the tuple of upvars
                    let up = match tys.last() {
                        Some(t) => self.ty(*t).to_string(),
                        None => "null".into(),
                    };
                    format!("\"k\":\"closure\",\"path\":{},\"inst\":{},\"upvars\":{}", js(&def.name()), inst, up)
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"elems\":{}", arr(&v))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{\"name\":{},{}}}", name, body)
    }
    fn alloc_bytes(&mut self, a: &Allocation) -> String {
        let mut bytes = String::new();
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(bytes, "{:02x}", b);
                }
                None => bytes.push_str("__"),
            }
        }
        let ptrs: Vec<String> = a
            .provenance
            .ptrs
            .iter()
            .map(|(off, p)| format!("[{},{}]", off, self.alloc(p.0)))
            .collect();
        format!("{{\"bytes\":\"{}\",\"ptrs\":{}}}", bytes, arr(&ptrs))
    }
    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(&id) = self.alloc_ids.get(&a) {
            return id;
        }
        let id = self.alloc_out.len();
        self.alloc_ids.insert(a, id);
        self.alloc_out.push(String::new());
        let s = match GlobalAlloc::from(a) {
            GlobalAlloc::Memory(m) => format!("{{\"k\":\"mem\",\"mem\":{}}}", self.alloc_bytes(&m)),
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"inst\":{}}}", self.inst(i)),
            GlobalAlloc::Static(s) => {
                let init = match s.eval_initializer() {
                    Ok(m) => self.alloc_bytes(&m),
                    Err(_) => "null".into(),
                };
                format!("{{\"k\":\"static\",\"name\":{},\"mem\":{}}}", js(&s.name()), init)
            }
            GlobalAlloc::VTable(t, _) => format!("{{\"k\":\"vtable\",\"ty\":{}}}", self.ty(t)),
            _ => "{\"k\":\"other\"}".into(),
        };
        self.alloc_out[id] = s;
        id
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::ZeroSized => "\"zst\"".to_string(),
            ConstantKind::Allocated(a) => self.alloc_bytes(a),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.alloc_bytes(a),
                TyConstKind::ZSTValue(_) => "\"zst\"".to_string(),
                _ => "null".into(),
            },
            _ => "null".into(),
        };
        format!("{{\"ty\":{},\"v\":{}}}", t, v)
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(&v))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn ops(&mut self, o: &[Operand]) -> String {
        let v: Vec<String> = o.iter().map(|x| self.op(x)).collect();
        arr(&v)
    }
    fn rval(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"reborrow\",{}]", self.place(p)),
            Rvalue::Aggregate(k, o) => {
                let os = self.ops(o);
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",{{\"k\":\"array\",\"elem\":{}}},{}]", self.ty(*t), os),
                    AggregateKind::Tuple => format!("[\"agg\",{{\"k\":\"tuple\"}},{}]", os),
                    AggregateKind::Adt(def, v, args, _, f) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*def, args.clone()));
                        let f = match f {
                            Some(f) => f.to_string(),
                            None => "null".into(),
                        };
                        format!("[\"agg\",{{\"k\":\"adt\",\"ty\":{},\"variant\":{},\"active\":{}}},{}]", self.ty(t), v.to_index(), f, os)
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*def, args.clone()));
                        format!("[\"agg\",{{\"k\":\"closure\",\"ty\":{}}},{}]", self.ty(t), os)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",{{\"k\":\"rawptr\"}},{}]", os),
                    _ => "[\"unsupported\"]".into(),
                }
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.op(x)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.op(o), n)
            }
            Rvalue::ThreadLocalRef(_) => "[\"unsupported\"]".into(),
        }
    }
    fn term(&mut self, t: &Terminator, body: &Body) -> String {
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<String> = targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b)).collect();
                format!("[\"switch\",{},{},{}]", self.op(discr), arr(&v), targets.otherwise())
            }
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(body.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"drop\",{},{},{}]", self.place(place), target, t)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let t = match target {
                    Some(t) => t.to_string(),
                    None => "null".into(),
                };
                format!("[\"call\",{},{},{},{}]", self.op(func), self.ops(args), self.place(destination), t)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                    AssertMessage::Overflow(b, ..) => format!("overflow {:?}", b),
                    o => format!("{:?}", std::mem::discriminant(o)),
                };
                format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, js(&m), target)
            }
            TerminatorKind::InlineAsm { .. } => "[\"unsupported\"]".into(),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(format!("[{},{}]", self.place(p), self.rval(r))),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[{},[\"setdiscr\",{}]]", self.place(place), variant_index.to_index()))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => st.push("[[0,[]],[\"unsupported\"]]".into()),
                    _ => {}
                }
            }
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", arr(&st), self.term(&bb.terminator, b)));
        }
        let spread = match b.spread_arg() {
            Some(s) => s.to_string(),
            None => "null".into(),
        };
        format!("{{\"args\":{},\"locals\":{},\"spread\":{},\"blocks\":{}}}", b.arg_locals().len(), arr(&locals), spread, arr(&blocks))
    }
    fn run(&mut self) {
        while let Some((id, i)) = self.queue.pop_front() {
            let name = i.name();
            let path = i.def.name();
            let krate = i.def.krate().name;
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let args = self.gargs(&i.args());
            let stop = STOP.iter().any(|p| path.starts_with(p) || name.starts_with(p)) || i.kind == InstanceKind::Intrinsic;
            let body = if stop || !(i.kind == InstanceKind::Shim || i.has_body()) {
                "null".to_string()
            } else {
                match i.body() {
                    Some(b) => self.body(&b),
                    None => "null".into(),
                }
            };
            // constructors of variants and tuple structs have no MIR of their own
            let out = if body == "null" && !stop {
                match i.ty().kind() {
                    TyKind::RigidTy(RigidTy::FnDef(..)) => match i.ty().kind().fn_sig() {
                        Some(sig) => {
                            let io = sig.skip_binder();
                            let ins: Vec<String> = io.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                            format!("{{\"out\":{},\"in\":[{}]}}", self.ty(io.output()), ins.join(","))
                        }
                        None => "null".into(),
                    },
                    _ => "null".into(),
                }
            } else {
                "null".into()
            };
            let span = i.def.span();
            let loc = span.get_lines();
            let file = span.get_filename();
            self.inst_out[id] = format!(
                "{{\"id\":{},\"name\":{},\"path\":{},\"crate\":{},\"kind\":\"{}\",\"targs\":{},\"loc\":{},\"sig\":{},\"body\":{}}}",
                id,
                js(&name),
                js(&path),
                js(&krate),
                kind,
                args,
                js(&format!("{}:{}-{}", file, loc.start_line, loc.end_line)),
                out,
                body
            );
        }
    }
}

fn analyze() -> ControlFlow<()> {
    let out = match std::env::var("MIRDUMP_OUT") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let mut d = D::default();
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) || item.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let id = d.inst(i);
            roots.push(format!("{}:{}", js(&item.name()), id));
        }
    }
    d.run();
    // Drop impls in the verified crate would make ignoring drops unsound: report them.
    let mut s = String::new();
    let _ = write!(s, "{{\"roots\":{{{}}},\n\"fns\":[\n{}\n],\n\"types\":[\n{}\n],\n\"allocs\":[\n{}\n]}}\n", roots.join(","), d.inst_out.join(",\n"), d.ty_out.join(",\n"), d.alloc_out.join(",\n"));
    std::fs::write(out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let r = run!(&args, analyze);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
