//! Dumps the monomorphised MIR of everything reachable from the token-bonding-curve library's own
//! functions as JSON lines, for the symbolic executor in ../sym.
//! Usage (as cargo's RUSTC through rustc-stable-shim.sh): mirdump <real rustc path> <rustc args...>
//! Output file: $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_public_bridge;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape, Scalar, Primitive};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    types: HashMap<Ty, usize>,
    type_json: Vec<Option<String>>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    out: std::io::BufWriter<std::fs::File>,
    stop: Vec<String>,
    /// dyn type -> concrete types unsized to it
    unsized_to: HashMap<Ty, Vec<Ty>>,
    /// dyn type -> virtual methods called on it
    virtual_calls: HashMap<Ty, Vec<(FnDef, GenericArgs)>>,
    vt_done: HashSet<(String, Ty)>,
    allocs: HashMap<String, ()>,
    nbody: usize,
    nextern: usize,
}

fn size_bits_i(t: &IntTy) -> usize {
    match t { IntTy::Isize => 64, IntTy::I8 => 8, IntTy::I16 => 16, IntTy::I32 => 32, IntTy::I64 => 64, IntTy::I128 => 128 }
}
fn size_bits_u(t: &UintTy) -> usize {
    match t { UintTy::Usize => 64, UintTy::U8 => 8, UintTy::U16 => 16, UintTy::U32 => 32, UintTy::U64 => 64, UintTy::U128 => 128 }
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) { return *i; }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(None);
        let j = self.ty_json(t);
        self.type_json[i] = Some(j);
        i
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let (size, align) = match t.layout() {
            Ok(l) => { let s = l.shape(); if s.is_unsized() { (-1, 1) } else { (s.size.bytes() as i64, s.abi_align as i64) } }
            Err(_) => (-1, 1),
        };
        let head = format!("\"size\":{},\"align\":{}", size, align);
        let TyKind::RigidTy(r) = t.kind() else { return format!("{{\"k\":\"other\",\"s\":{},{}}}", esc(&format!("{t}")), head) };
        match r {
            RigidTy::Bool => format!("{{\"k\":\"bool\",{head}}}"),
            RigidTy::Char => format!("{{\"k\":\"int\",\"bits\":32,\"signed\":false,\"char\":true,{head}}}"),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":true,{head}}}", size_bits_i(&i)),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":false,{head}}}", size_bits_u(&i)),
            RigidTy::Float(_) => format!("{{\"k\":\"float\",{head}}}"),
            RigidTy::Never => format!("{{\"k\":\"never\",{head}}}"),
            RigidTy::Str => format!("{{\"k\":\"str\",{head}}}"),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(u64::MAX);
                let e = self.ty(e);
                format!("{{\"k\":\"array\",\"e\":{e},\"n\":{n},{head}}}")
            }
            RigidTy::Slice(e) => { let e = self.ty(e); format!("{{\"k\":\"slice\",\"e\":{e},{head}}}") }
            RigidTy::Pat(e, _) => { let e = self.ty(e); format!("{{\"k\":\"pat\",\"e\":{e},{head}}}") }
            RigidTy::RawPtr(e, m) => { let e = self.ty(e); format!("{{\"k\":\"ptr\",\"e\":{e},\"mut\":{},{head}}}", m == Mutability::Mut) }
            RigidTy::Ref(_, e, m) => { let e = self.ty(e); format!("{{\"k\":\"ref\",\"e\":{e},\"mut\":{},{head}}}", m == Mutability::Mut) }
            RigidTy::FnDef(d, a) => {
                let (name, sym) = match Instance::resolve(d, &a) {
                    Ok(i) => { let s = self.inst(i); (i.name().to_string(), s) }
                    Err(_) => (format!("{t}"), String::new()),
                };
                format!("{{\"k\":\"fndef\",\"name\":{},\"inst\":{},{head}}}", esc(&name), esc(&sym))
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",{head}}}"),
            RigidTy::Closure(d, a) => {
                // last generic arg is the upvar tuple
                let ups = match a.0.last() { Some(GenericArgKind::Type(t)) => { let t = *t; self.ty(t) } _ => usize::MAX };
                let inst = match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { _ => String::new() };
                let _ = inst;
                format!("{{\"k\":\"closure\",\"name\":{},\"ups\":{},{head}}}", esc(&format!("{t}")), ups)
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"name\":{},{head}}}", esc(&format!("{t}"))),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"f\":[{}],{head}}}", v.join(","))
            }
            RigidTy::Adt(def, args) => {
                let mut vs = vec![];
                let is_enum = def.kind() == AdtKind::Enum;
                for v in def.variants() {
                    let d = if is_enum { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                    let fs: Vec<String> = v.fields().iter().map(|f| { let ft = f.ty_with_args(&args); self.ty(ft).to_string() }).collect();
                    let fname: Vec<String> = v.fields().iter().map(|f| esc(&f.name.to_string())).collect();
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}],\"fn\":[{}]}}", esc(&v.name().to_string()), d, fs.join(","), fname.join(",")));
                }
                let targs: Vec<String> = args.0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => Some(self.ty(*t).to_string()), _ => None }).collect();
                let dty = if is_enum { match t.kind().discriminant_ty() { Some(d) => self.ty(d) as i64, None => -1 } } else { -1 };
                format!("{{\"k\":\"adt\",\"name\":{},\"full\":{},\"ak\":{},\"box\":{},\"dty\":{},\"targs\":[{}],\"v\":[{}],{head}}}",
                    esc(&def.name().to_string()), esc(&format!("{t}")), esc(match def.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" }),
                    def.is_box(), dty, targs.join(","), vs.join(","))
            }
            other => format!("{{\"k\":\"other\",\"s\":{},{head}}}", esc(&format!("{other:?}"))),
        }
    }

    fn stopped(&self, name: &str) -> bool {
        self.stop.iter().any(|p| if let Some(q) = p.strip_prefix('*') { name.contains(q) } else { name.starts_with(p.as_str()) })
    }

    fn inst(&mut self, i: Instance) -> String {
        let sym = i.mangled_name().to_string();
        let key = format!("{}|{}", sym, match i.kind { InstanceKind::Virtual { .. } => "v", InstanceKind::Shim => "s", InstanceKind::Intrinsic => "x", _ => "i" });
        if self.seen.insert(key.clone()) { self.queue.push_back(i); }
        key
    }

    // ---- constants -------------------------------------------------------------------------
    fn read_uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if off + n > a.bytes.len() { return None; }
        let mut v: u128 = 0;
        for k in 0..n { v |= (a.bytes[off + k]? as u128) << (8 * k); }
        Some(v)
    }
    fn prov_at(a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    fn konst(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 { return "{\"c\":\"deep\"}".into(); }
        let TyKind::RigidTy(r) = t.kind() else { return "{\"c\":\"unk\"}".into() };
        let shape = match t.layout() { Ok(l) => l.shape(), Err(_) => return "{\"c\":\"unk\"}".into() };
        let size = if shape.is_unsized() { 0 } else { shape.size.bytes() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Int(_) | RigidTy::Float(_) => {
                match Self::read_uint(a, off, size) {
                    Some(mut v) => {
                        if let RigidTy::Int(it) = r {
                            let b = size_bits_i(&it);
                            if b < 128 && v >> (b - 1) & 1 == 1 { let s = v as i128 - (1i128 << b); return format!("{{\"c\":\"int\",\"v\":\"{}\"}}", s); }
                            if b == 128 { return format!("{{\"c\":\"int\",\"v\":\"{}\"}}", v as i128); }
                        }
                        if matches!(r, RigidTy::Bool) { v &= 1; }
                        format!("{{\"c\":\"int\",\"v\":\"{}\"}}", v)
                    }
                    None => {
                        if Self::prov_at(a, off).is_some() { return "{\"c\":\"unk\"}".into(); }
                        "{\"c\":\"uninit\"}".into()
                    }
                }
            }
            RigidTy::Pat(e, _) => self.konst(a, off, e, depth + 1),
            RigidTy::FnDef(..) | RigidTy::Never => "{\"c\":\"zst\"}".into(),
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return "{\"c\":\"agg\",\"var\":0,\"f\":[]}".into() };
                let fs: Vec<String> = ts.iter().zip(offsets).map(|(t, o)| self.konst(a, off + o.bytes(), *t, depth + 1)).collect();
                format!("{{\"c\":\"agg\",\"var\":0,\"f\":[{}]}}", fs.join(","))
            }
            RigidTy::Closure(_, args) => {
                let ups = match args.0.last() { Some(GenericArgKind::Type(t)) => *t, _ => return "{\"c\":\"unk\"}".into() };
                let TyKind::RigidTy(RigidTy::Tuple(ts)) = ups.kind() else { return "{\"c\":\"unk\"}".into() };
                if ts.is_empty() { return "{\"c\":\"agg\",\"var\":0,\"f\":[]}".into(); }
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return "{\"c\":\"unk\"}".into() };
                let fs: Vec<String> = ts.iter().zip(offsets).map(|(t, o)| self.konst(a, off + o.bytes(), *t, depth + 1)).collect();
                format!("{{\"c\":\"agg\",\"var\":0,\"f\":[{}]}}", fs.join(","))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = match e.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return "{\"c\":\"unk\"}".into() };
                if n > 70000 { return "{\"c\":\"unk\"}".into(); }
                let fs: Vec<String> = (0..n).map(|k| self.konst(a, off + k * es, e, depth + 1)).collect();
                format!("{{\"c\":\"arr\",\"f\":[{}]}}", fs.join(","))
            }
            RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => self.konst_ptr(a, off, p, depth),
            RigidTy::FnPtr(_) => {
                match Self::prov_at(a, off).map(GlobalAlloc::from) {
                    Some(GlobalAlloc::Function(i)) => { let s = self.inst(i); format!("{{\"c\":\"fn\",\"inst\":{},\"name\":{}}}", esc(&s), esc(&i.name().to_string())) }
                    _ => "{\"c\":\"unk\"}".into(),
                }
            }
            RigidTy::Adt(def, args) => {
                match def.kind() {
                    AdtKind::Union => {
                        // expose as the raw bytes
                        let fs: Vec<String> = (0..size).map(|k| match a.bytes.get(off + k) { Some(Some(b)) => b.to_string(), _ => "null".into() }).collect();
                        let pv: Vec<String> = vec![];
                        let _ = pv;
                        // decode through the largest field when it has no uninit part
                        let mut best: Option<(usize, usize, Ty)> = None;
                        for (k, f) in def.variants()[0].fields().iter().enumerate() {
                            let ft = f.ty_with_args(&args);
                            if let Ok(l) = ft.layout() { let s = l.shape(); if !s.is_unsized() { let b = s.size.bytes(); if best.is_none() || best.unwrap().1 < b { best = Some((k, b, ft)); } } }
                        }
                        if let Some((k, _, ft)) = best {
                            let v = self.konst(a, off, ft, depth + 1);
                            return format!("{{\"c\":\"union\",\"field\":{},\"v\":{},\"bytes\":[{}]}}", k, v, fs.join(","));
                        }
                        format!("{{\"c\":\"union\",\"bytes\":[{}]}}", fs.join(","))
                    }
                    AdtKind::Struct => {
                        let v = &def.variants()[0];
                        let offs: Vec<usize> = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                        let fs: Vec<String> = v.fields().iter().enumerate().map(|(k, f)| { let o = offs.get(k).copied().unwrap_or(0); let ft = f.ty_with_args(&args); self.konst(a, off + o, ft, depth + 1) }).collect();
                        format!("{{\"c\":\"agg\",\"var\":0,\"f\":[{}]}}", fs.join(","))
                    }
                    AdtKind::Enum => {
                        let (idx, offs): (usize, Vec<usize>) = match &shape.variants {
                            VariantsShape::Empty => return "{\"c\":\"unk\"}".into(),
                            VariantsShape::Single { index } => {
                                let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                                (index.to_index(), offs)
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let tag_off = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                                let prim = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                                let n = match prim { Primitive::Int { length, .. } => length.bits() / 8, _ => 8 };
                                let is_ptr = matches!(prim, Primitive::Pointer(_));
                                let tagv = if is_ptr && Self::prov_at(a, off + tag_off).is_some() { None } else { match Self::read_uint(a, off + tag_off, n) { Some(v) => Some(v), None => return "{\"c\":\"uninit\"}".into() } };
                                let mask: u128 = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                let idx = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let tv = tagv.unwrap_or(0);
                                        let mut found = None;
                                        for v in def.variants() { if def.discriminant_for_variant(v.idx()).val & mask == tv { found = Some(v.idx().to_index()); } }
                                        match found { Some(f) => f, None => return "{\"c\":\"unk\"}".into() }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        match tagv {
                                            None => untagged_variant.to_index(),
                                            Some(tv) => {
                                                let rel = tv.wrapping_sub(*niche_start) & mask;
                                                let s = niche_variants.start().to_index(); let e = niche_variants.end().to_index();
                                                if rel <= (e - s) as u128 { s + rel as usize } else { untagged_variant.to_index() }
                                            }
                                        }
                                    }
                                };
                                (idx, variants[idx].offsets.iter().map(|o| o.bytes()).collect())
                            }
                        };
                        let v = &def.variants()[idx];
                        let fs: Vec<String> = v.fields().iter().enumerate().map(|(k, f)| { let o = offs.get(k).copied().unwrap_or(0); let ft = f.ty_with_args(&args); self.konst(a, off + o, ft, depth + 1) }).collect();
                        format!("{{\"c\":\"agg\",\"var\":{},\"f\":[{}]}}", idx, fs.join(","))
                    }
                }
            }
            _ => "{\"c\":\"unk\"}".into(),
        }
    }

    fn konst_ptr(&mut self, a: &Allocation, off: usize, pointee: Ty, depth: usize) -> String {
        let pk = pointee.kind();
        let Some(aid) = Self::prov_at(a, off) else {
            let addr = Self::read_uint(a, off, 8).unwrap_or(0);
            let len = match pk { TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) => Self::read_uint(a, off + 8, 8).unwrap_or(0) as i128, _ => -1 };
            let e = match pk { TyKind::RigidTy(RigidTy::Slice(e)) => self.ty(e), _ => self.ty(pointee) };
            return format!("{{\"c\":\"dangling\",\"addr\":\"{addr}\",\"len\":{len},\"e\":{e}}}");
        };
        let base = Self::read_uint(a, off, 8).unwrap_or(0) as usize;
        let g = GlobalAlloc::from(aid);
        let id = format!("{:?}", aid);
        match g {
            GlobalAlloc::Function(i) => { let s = self.inst(i); format!("{{\"c\":\"fn\",\"inst\":{}}}", esc(&s)) }
            GlobalAlloc::Static(s) => {
                let t = s.ty();
                let ti = self.ty(t);
                let v = match s.eval_initializer() { Ok(al) => self.konst(&al, 0, t, depth + 1), Err(_) => "{\"c\":\"unk\"}".into() };
                format!("{{\"c\":\"ref\",\"alloc\":{},\"static\":{},\"ty\":{},\"v\":{}}}", esc(&id), esc(&s.name().to_string()), ti, v)
            }
            GlobalAlloc::VTable(..) | GlobalAlloc::TypeId { .. } => "{\"c\":\"unk\"}".into(),
            GlobalAlloc::Memory(m) => {
                match pk {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let b: Vec<String> = (0..n).map(|k| m.bytes.get(base + k).copied().flatten().unwrap_or(0).to_string()).collect();
                        format!("{{\"c\":\"str\",\"alloc\":{},\"b\":[{}]}}", esc(&id), b.join(","))
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let n = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let es = match e.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return "{\"c\":\"unk\"}".into() };
                        if n > 70000 { return "{\"c\":\"unk\"}".into(); }
                        let fs: Vec<String> = (0..n).map(|k| self.konst(&m, base + k * es, e, depth + 1)).collect();
                        let et = self.ty(e);
                        format!("{{\"c\":\"slice\",\"alloc\":{},\"e\":{},\"f\":[{}]}}", esc(&id), et, fs.join(","))
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                        // concrete type from the vtable
                        let vt = Self::prov_at(a, off + 8).map(GlobalAlloc::from);
                        if let Some(GlobalAlloc::VTable(ct, _)) = vt {
                            self.unsized_to.entry(pointee).or_default().push(ct);
                            let v = self.konst(&m, base, ct, depth + 1);
                            let ti = self.ty(ct);
                            return format!("{{\"c\":\"ref\",\"alloc\":{},\"ty\":{},\"dyn\":{},\"v\":{}}}", esc(&id), ti, ti, v);
                        }
                        "{\"c\":\"unk\"}".into()
                    }
                    _ => {
                        let v = self.konst(&m, base, pointee, depth + 1);
                        let ti = self.ty(pointee);
                        format!("{{\"c\":\"ref\",\"alloc\":{},\"ty\":{},\"v\":{}}}", esc(&id), ti, v)
                    }
                }
            }
        }
    }

    // ---- MIR -------------------------------------------------------------------------------
    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() { return format!("[{}]", p.local); }
        let mut s = format!("[{}", p.local);
        for e in &p.projection {
            s.push(',');
            match e {
                ProjectionElem::Deref => s.push_str("\"*\""),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); let _ = write!(s, "[\"f\",{},{}]", i, t); }
                ProjectionElem::Index(l) => { let _ = write!(s, "[\"i\",{}]", l); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(s, "[\"ci\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(s, "[\"ss\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(v) => { let _ = write!(s, "[\"v\",{}]", v.to_index()); }
                ProjectionElem::OpaqueCast(t) => { let t = self.ty(*t); let _ = write!(s, "[\"oc\",{}]", t); }
            }
        }
        s.push(']');
        s
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => { let p = self.place(p); format!("{{\"cp\":{p}}}") }
            Operand::Move(p) => { let p = self.place(p); format!("{{\"mv\":{p}}}") }
            Operand::RuntimeChecks(k) => format!("{{\"rt\":{}}}", esc(&format!("{k:?}"))),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = match c.const_.kind() {
                    ConstantKind::ZeroSized => "{\"c\":\"zst\"}".to_string(),
                    ConstantKind::Allocated(a) => { let a = a.clone(); self.konst(&a, 0, t, 0) }
                    ConstantKind::Ty(tc) => match tc.kind() {
                        TyConstKind::Value(t2, a) => { let a = a.clone(); let t2 = *t2; self.konst(&a, 0, t2, 0) }
                        TyConstKind::ZSTValue(_) => "{\"c\":\"zst\"}".to_string(),
                        _ => "{\"c\":\"unk\"}".into(),
                    },
                    _ => "{\"c\":\"unk\"}".into(),
                };
                format!("{{\"k\":{v},\"ty\":{ti}}}")
            }
        }
    }

    fn note_unsize(&mut self, from: Ty, to: Ty) {
        // peel pointer-like layers until a (T -> dyn) pair appears
        let (mut f, mut t) = (from, to);
        for _ in 0..8 {
            let (fk, tk) = (f.kind(), t.kind());
            if let TyKind::RigidTy(RigidTy::Dynamic(..)) = tk {
                if !matches!(fk, TyKind::RigidTy(RigidTy::Dynamic(..))) {
                    let v = self.unsized_to.entry(t).or_default();
                    if !v.contains(&f) { v.push(f); }
                    // drop glue of the concrete type
                    let d = Instance::resolve_drop_in_place(f);
                    self.inst(d);
                }
                return;
            }
            match (fk, tk) {
                (TyKind::RigidTy(RigidTy::Ref(_, a, _)), TyKind::RigidTy(RigidTy::Ref(_, b, _)))
                | (TyKind::RigidTy(RigidTy::Ref(_, a, _)), TyKind::RigidTy(RigidTy::RawPtr(b, _)))
                | (TyKind::RigidTy(RigidTy::RawPtr(a, _)), TyKind::RigidTy(RigidTy::RawPtr(b, _))) => { f = a; t = b; }
                (TyKind::RigidTy(RigidTy::Adt(_, a)), TyKind::RigidTy(RigidTy::Adt(_, b))) => {
                    let mut found = None;
                    for (x, y) in a.0.iter().zip(b.0.iter()) {
                        if let (GenericArgKind::Type(x), GenericArgKind::Type(y)) = (x, y) { if x != y { found = Some((*x, *y)); break; } }
                    }
                    match found { Some((x, y)) => { f = x; t = y; } None => return }
                }
                _ => return,
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => { let o = self.operand(o); format!("{{\"r\":\"use\",\"o\":{o}}}") }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); format!("{{\"r\":\"use\",\"o\":{{\"cp\":{p}}}}}") }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => { let p = self.place(p); format!("{{\"r\":\"ref\",\"p\":{p}}}") }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p); format!("{{\"r\":\"use\",\"o\":{{\"cp\":{p}}}}}") }
            Rvalue::Len(p) => { let p = self.place(p); format!("{{\"r\":\"len\",\"p\":{p}}}") }
            Rvalue::Discriminant(p) => { let p = self.place(p); format!("{{\"r\":\"discr\",\"p\":{p}}}") }
            Rvalue::Repeat(o, n) => { let o = self.operand(o); let n = n.eval_target_usize().unwrap_or(u64::MAX); format!("{{\"r\":\"repeat\",\"o\":{o},\"n\":{n}}}") }
            Rvalue::BinaryOp(op, a, b) => { let t = self.opty(a, locals); let (a, b) = (self.operand(a), self.operand(b)); format!("{{\"r\":\"bin\",\"op\":\"{op:?}\",\"a\":{a},\"b\":{b},\"ty\":{t}}}") }
            Rvalue::CheckedBinaryOp(op, a, b) => { let t = self.opty(a, locals); let (a, b) = (self.operand(a), self.operand(b)); format!("{{\"r\":\"cbin\",\"op\":\"{op:?}\",\"a\":{a},\"b\":{b},\"ty\":{t}}}") }
            Rvalue::UnaryOp(op, a) => { let t = self.opty(a, locals); let a = self.operand(a); format!("{{\"r\":\"un\",\"op\":\"{op:?}\",\"a\":{a},\"ty\":{t}}}") }
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(locals).ok();
                if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Some(f)) = (k, ft) { self.note_unsize(f, *t); }
                let mut extra = String::new();
                if let Some(f) = ft {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = f.kind() {
                        if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) { let s = self.inst(i); extra = format!(",\"fn\":{}", esc(&s)); }
                    }
                    if let (CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)), TyKind::RigidTy(RigidTy::Closure(d, a))) = (k, f.kind()) {
                        if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { let s = self.inst(i); extra = format!(",\"fn\":{}", esc(&s)); }
                    }
                }
                let fti = match ft { Some(f) => self.ty(f) as i64, None => -1 };
                let ti = self.ty(*t);
                let o = self.operand(o);
                format!("{{\"r\":\"cast\",\"ck\":\"{k:?}\",\"o\":{o},\"from\":{fti},\"ty\":{ti}{extra}}}")
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let os = os.join(",");
                match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("{{\"r\":\"agg\",\"ak\":\"array\",\"e\":{t},\"o\":[{os}]}}") }
                    AggregateKind::Tuple => format!("{{\"r\":\"agg\",\"ak\":\"tuple\",\"o\":[{os}]}}"),
                    AggregateKind::Adt(d, v, a, _, uf) => {
                        let t = self.ty(d.ty_with_args(a));
                        let uf = match uf { Some(u) => *u as i64, None => -1 };
                        format!("{{\"r\":\"agg\",\"ak\":\"adt\",\"ty\":{t},\"var\":{},\"uf\":{uf},\"o\":[{os}]}}", v.to_index())
                    }
                    AggregateKind::Closure(d, a) => { let t = self.ty(Ty::new_closure(*d, a.clone())); format!("{{\"r\":\"agg\",\"ak\":\"closure\",\"ty\":{t},\"o\":[{os}]}}") }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); format!("{{\"r\":\"agg\",\"ak\":\"rawptr\",\"e\":{t},\"o\":[{os}]}}") }
                    _ => "{\"r\":\"unk\"}".into(),
                }
            }
            Rvalue::ThreadLocalRef(_) => "{\"r\":\"unk\",\"s\":\"tls\"}".into(),
        }
    }

    fn opty(&mut self, o: &Operand, locals: &[LocalDecl]) -> i64 {
        match o.ty(locals) { Ok(t) => self.ty(t) as i64, Err(_) => -1 }
    }

    fn span(&self, s: &Span) -> String {
        let f = s.get_filename();
        let f = f.rsplit("/src/").next().unwrap_or(&f).to_string();
        format!("{}:{}", f, s.get_lines().start_line)
    }

    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
        let sp = self.span(&t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target } => format!("{{\"t\":\"goto\",\"to\":{target}}}"),
            TerminatorKind::Return => "{\"t\":\"ret\"}".into(),
            TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
            TerminatorKind::Resume => "{\"t\":\"resume\"}".into(),
            TerminatorKind::Abort => "{\"t\":\"abort\"}".into(),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = self.opty(discr, locals);
                let d = self.operand(discr);
                let b: Vec<String> = targets.branches().map(|(v, b)| format!("[\"{v}\",{b}]")).collect();
                format!("{{\"t\":\"switch\",\"d\":{d},\"ty\":{dt},\"b\":[{}],\"else\":{},\"sp\":{}}}", b.join(","), targets.otherwise(), esc(&sp))
            }
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(locals).ok();
                let (sym, ti) = match pt {
                    Some(t) => { let i = Instance::resolve_drop_in_place(t); let s = if i.is_empty_shim() { String::new() } else { self.inst(i) }; (s, self.ty(t) as i64) }
                    None => (String::new(), -1),
                };
                let p = self.place(place);
                format!("{{\"t\":\"drop\",\"p\":{p},\"inst\":{},\"ty\":{ti},\"to\":{target}}}", esc(&sym))
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(cond);
                let m = match msg {
                    AssertMessage::Overflow(op, ..) => format!("overflow {op:?}"),
                    AssertMessage::OverflowNeg(_) => "overflow Neg".into(),
                    AssertMessage::BoundsCheck { .. } => "bounds".into(),
                    AssertMessage::DivisionByZero(_) => "div0".into(),
                    AssertMessage::RemainderByZero(_) => "rem0".into(),
                    AssertMessage::MisalignedPointerDereference { .. } => "align".into(),
                    AssertMessage::NullPointerDereference => "null".into(),
                    AssertMessage::NullReferenceConstructed => "nullref".into(),
                    AssertMessage::InvalidEnumConstruction(_) => "enum".into(),
                    _ => "other".into(),
                };
                format!("{{\"t\":\"assert\",\"c\":{c},\"exp\":{expected},\"m\":{},\"to\":{target},\"sp\":{}}}", esc(&m), esc(&sp))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(locals).ok();
                let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                let at: Vec<String> = args.iter().map(|o| self.opty(o, locals).to_string()).collect();
                let dest = self.place(destination);
                let to = match target { Some(t) => t.to_string(), None => "null".into() };
                let dt = match destination.ty(locals) { Ok(t) => self.ty(t) as i64, Err(_) => -1 };
                let mut callee = String::new();
                match ft.map(|f| f.kind()) {
                    Some(TyKind::RigidTy(RigidTy::FnDef(d, ga))) => {
                        match Instance::resolve(d, &ga) {
                            Ok(i) => {
                                let name = i.name().to_string();
                                let targs: Vec<String> = ga.0.iter().filter_map(|g| match g { GenericArgKind::Type(t) => Some(self.ty(*t).to_string()), _ => None }).collect();
                                match i.kind {
                                    InstanceKind::Virtual { .. } => {
                                        let st = match ga.0.first() { Some(GenericArgKind::Type(t)) => Some(*t), _ => None };
                                        let mut mname = d.name().to_string();
                                        if let Some(st) = st {
                                            let e = self.virtual_calls.entry(st).or_default();
                                            if !e.contains(&(d, ga.clone())) { e.push((d, ga.clone())); }
                                            let sti = self.ty(st);
                                            let _ = write!(mname, "|{}", sti);
                                        }
                                        let _ = write!(callee, "\"virt\":{},\"name\":{}", esc(&mname), esc(&name));
                                    }
                                    _ => {
                                        let s = self.inst(i);
                                        let intr = match i.intrinsic_name() { Some(n) if matches!(i.kind, InstanceKind::Intrinsic) => format!(",\"intr\":{}", esc(&n.to_string())), _ => String::new() };
                                        let _ = write!(callee, "\"inst\":{},\"name\":{},\"def\":{},\"targs\":[{}]{}", esc(&s), esc(&name), esc(&d.name().to_string()), targs.join(","), intr);
                                    }
                                }
                            }
                            Err(e) => { let _ = write!(callee, "\"unres\":{}", esc(&format!("{e:?}"))); }
                        }
                    }
                    _ => { let f = self.operand(func); let _ = write!(callee, "\"ptr\":{f}"); }
                }
                format!("{{\"t\":\"call\",{callee},\"a\":[{}],\"at\":[{}],\"d\":{dest},\"dt\":{dt},\"to\":{to},\"sp\":{}}}", a.join(","), at.join(","), esc(&sp))
            }
            TerminatorKind::InlineAsm { .. } => "{\"t\":\"asm\"}".into(),
        }
    }

    fn body(&mut self, i: Instance, sym: &str) {
        let name = i.name().to_string();
        let defname = format!("{}", i.def.name());
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim", _ => "llvm" };
        let stopped = self.stopped(&name) || kind == "virtual";
        let body = if stopped || kind == "intrinsic" { None } else { i.body() };
        let intr = i.intrinsic_name().map(|s| s.to_string());
        let targs: Vec<String> = i.args().0.iter().filter_map(|g| match g { GenericArgKind::Type(t) => Some(self.ty(*t).to_string()), _ => None }).collect();
        let mut s = format!("{{\"fn\":{},\"name\":{},\"def\":{},\"kind\":\"{}\",\"targs\":[{}]", esc(sym), esc(&name), esc(&defname), kind, targs.join(","));
        if let Some(x) = intr { let _ = write!(s, ",\"intr\":{}", esc(&x)); }
        match body {
            None => { self.nextern += 1; let _ = write!(s, ",\"nobody\":true,\"stopped\":{}}}", stopped); }
            Some(b) => {
                self.nbody += 1;
                let locals = b.locals().to_vec();
                let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
                let mut names: BTreeMap<usize, String> = BTreeMap::new();
                for v in &b.var_debug_info { if let Some(l) = v.local() { names.entry(l).or_insert(v.name.to_string()); } }
                let nm: Vec<String> = names.iter().map(|(k, v)| format!("\"{}\":{}", k, esc(v))).collect();
                let spread = match b.spread_arg() { Some(l) => l.to_string(), None => "null".into() };
                let sp = self.span(&b.span);
                let _ = write!(s, ",\"args\":{},\"spread\":{},\"sp\":{},\"locals\":[{}],\"names\":{{{}}},\"blocks\":[", b.arg_locals().len(), spread, esc(&sp), lt.join(","), nm.join(","));
                for (bi, blk) in b.blocks.iter().enumerate() {
                    if bi > 0 { s.push(','); }
                    s.push_str("{\"s\":[");
                    let mut first = true;
                    for st in &blk.statements {
                        let j = match &st.kind {
                            StatementKind::Assign(p, r) => { let rv = self.rvalue(r, &locals); let pj = self.place(p); format!("{{\"s\":\"=\",\"p\":{pj},\"r\":{rv}}}") }
                            StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); format!("{{\"s\":\"sd\",\"p\":{p},\"var\":{}}}", variant_index.to_index()) }
                            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                                let (a, b2, n) = (self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count));
                                format!("{{\"s\":\"cno\",\"src\":{a},\"dst\":{b2},\"n\":{n}}}")
                            }
                            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => continue,
                            StatementKind::StorageDead(l) => { let _ = l; continue }
                            _ => continue,
                        };
                        if !first { s.push(','); }
                        first = false;
                        s.push_str(&j);
                    }
                    s.push_str("],\"t\":");
                    let t = self.term(&blk.terminator, &locals);
                    s.push_str(&t);
                    s.push('}');
                }
                s.push_str("]}");
            }
        }
        writeln!(self.out, "{}", s).unwrap();
    }
}

fn dump() -> ControlFlow<()> {
    let Ok(path) = std::env::var("MIRDUMP_OUT") else { return ControlFlow::Continue(()) };
    let tmp = format!("{}.tmp", path);
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default()
        .lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    let mut cx = Cx {
        types: HashMap::new(), type_json: vec![], queue: VecDeque::new(), seen: HashSet::new(),
        out: std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap()), stop,
        unsized_to: HashMap::new(), virtual_calls: HashMap::new(), vt_done: HashSet::new(), allocs: HashMap::new(), nbody: 0, nextern: 0,
    };
    let _ = &cx.allocs;
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if item.kind() != rustc_public::ItemKind::Fn || item.requires_monomorphization() { continue; }
        let t = item.ty();
        if let TyKind::RigidTy(RigidTy::FnDef(..)) = t.kind() {
            if let Ok(i) = Instance::try_from(item) { let s = cx.inst(i); roots.push(format!("[{},{}]", esc(&item.name().to_string()), esc(&s))); }
        }
    }
    // consts/statics of the crate (so that checks can read e.g. program constants)
    loop {
        while let Some(i) = cx.queue.pop_front() {
            let sym = format!("{}|{}", i.mangled_name(), match i.kind { InstanceKind::Virtual { .. } => "v", InstanceKind::Shim => "s", InstanceKind::Intrinsic => "x", _ => "i" });
            cx.body(i, &sym);
        }
        // vtables
        let mut todo = vec![];
        for (d, ms) in &cx.virtual_calls {
            if let Some(cts) = cx.unsized_to.get(d) {
                for (m, ga) in ms { for ct in cts { todo.push((*d, *m, ga.clone(), *ct)); } }
            }
        }
        let mut progress = false;
        for (d, m, ga, ct) in todo {
            let di = cx.ty(d);
            let key = format!("{}|{}", m.name(), di);
            if !cx.vt_done.insert((key.clone(), ct)) { continue; }
            progress = true;
            let mut a2 = ga.clone();
            a2.0[0] = GenericArgKind::Type(ct);
            if let Ok(i) = Instance::resolve(m, &a2) {
                let s = cx.inst(i);
                let cti = cx.ty(ct);
                writeln!(cx.out, "{{\"vt\":{},\"ct\":{},\"inst\":{},\"name\":{}}}", esc(&key), cti, esc(&s), esc(&i.name().to_string())).unwrap();
            }
        }
        if !progress && cx.queue.is_empty() { break; }
    }
    writeln!(cx.out, "{{\"roots\":[{}]}}", roots.join(",")).unwrap();
    let tys: Vec<String> = cx.type_json.iter().map(|t| t.clone().unwrap_or("null".into())).collect();
    writeln!(cx.out, "{{\"types\":[{}]}}", tys.join(",\n")).unwrap();
    cx.out.flush().unwrap();
    drop(cx.out);
    std::fs::rename(&tmp, &path).unwrap();
    eprintln!("mirdump: {} bodies, {} externs, {} types", cx.nbody, cx.nextern, cx.type_json.len());
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let r = run!(&args, dump);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(_) => std::process::exit(1),
    }
}
