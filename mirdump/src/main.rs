//! rustc driver: dumps the monomorphic MIR reachable from the local crate's
//! `root_*` functions (or `main`) as JSON.  Used as RUSTC_WORKSPACE_WRAPPER;
//! only acts on the crate named in $MIRDUMP_CRATE and is a plain rustc otherwise.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::ItemKind;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn vidx<T: std::fmt::Debug>(v: &T) -> usize {
    let s = format!("{:?}", v);
    let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    d.parse().expect("variant index")
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct D {
    ty_ids: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    queue: VecDeque<Instance>,
    seen: HashMap<String, ()>,
    callees: HashMap<String, String>,
    stop: Vec<String>,
    depth: usize,
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

impl D {
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => {
                    v.push(js(&match c.eval_target_usize() {
                        Ok(n) => n.to_string(),
                        Err(_) => "?".into(),
                    }));
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.ty_json.len();
        self.ty_ids.insert(t, id);
        self.ty_json.push(String::new());
        let s = self.ty_body(t);
        self.ty_json[id] = s;
        id
    }

    fn ty_body(&mut self, t: Ty) -> String {
        let k = t.kind();
        let disp = js(&format!("{}", TyDisp(t)));
        match k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#"{"k":"bool"}"#.into(),
                RigidTy::Char => r#"{"k":"char"}"#.into(),
                RigidTy::Int(i) => format!(r#"{{"k":"int","bits":{},"signed":true}}"#, i.num_bytes() * 8),
                RigidTy::Uint(i) => format!(r#"{{"k":"int","bits":{},"signed":false}}"#, i.num_bytes() * 8),
                RigidTy::Float(_) => r#"{"k":"float"}"#.into(),
                RigidTy::Str => r#"{"k":"str"}"#.into(),
                RigidTy::Never => r#"{"k":"never"}"#.into(),
                RigidTy::Foreign(_) => r#"{"k":"foreign"}"#.into(),
                RigidTy::Adt(def, args) => {
                    let name = js(&def.name());
                    let ga = self.gargs(&args);
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let d = if matches!(def.kind(), AdtKind::Enum) {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", js(&f.name), self.ty(ft)));
                        }
                        vs.push(format!(
                            r#"{{"n":{},"d":{},"f":{}}}"#,
                            js(&v.name()),
                            d,
                            arr(fs)
                        ));
                    }
                    format!(
                        r#"{{"k":"adt","kind":"{}","name":{},"args":{},"box":{},"variants":{}}}"#,
                        kind,
                        name,
                        ga,
                        def.is_box(),
                        arr(vs)
                    )
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("-1".into());
                    format!(r#"{{"k":"array","e":{},"n":{}}}"#, self.ty(e), n)
                }
                RigidTy::Slice(e) => format!(r#"{{"k":"slice","e":{}}}"#, self.ty(e)),
                RigidTy::RawPtr(e, m) => format!(
                    r#"{{"k":"ptr","to":{},"mut":{}}}"#,
                    self.ty(e),
                    m == Mutability::Mut
                ),
                RigidTy::Ref(_, e, m) => format!(
                    r#"{{"k":"ref","to":{},"mut":{}}}"#,
                    self.ty(e),
                    m == Mutability::Mut
                ),
                RigidTy::FnDef(def, args) => {
                    let key = match Instance::resolve(def, &args) {
                        Ok(i) => self.inst(i),
                        Err(_) => String::new(),
                    };
                    format!(
                        r#"{{"k":"fndef","def":{},"args":{},"key":{}}}"#,
                        js(&def.name()),
                        self.gargs(&args),
                        js(&key)
                    )
                }
                RigidTy::FnPtr(_) => r#"{"k":"fnptr"}"#.into(),
                RigidTy::Closure(def, args) => {
                    let mut key = String::new();
                    let mut key_once = String::new();
                    let kind = ClosureKind::FnMut;
                    if let Ok(i) = Instance::resolve_closure(def, &args, kind) {
                        key = self.inst(i);
                    }
                    if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                        key_once = self.inst(i);
                    }
                    // upvar types: the last generic arg is the tuple of captures
                    let up = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t) as i64,
                        _ => -1,
                    };
                    format!(
                        r#"{{"k":"closure","def":{},"key":{},"key_once":{},"up":{}}}"#,
                        js(&def.name()),
                        js(&key),
                        js(&key_once),
                        up
                    )
                }
                RigidTy::Dynamic(p, _) => {
                    let mut n = String::new();
                    for x in &p {
                        if let ExistentialPredicate::Trait(t) = &x.value {
                            n = t.def_id.name();
                        }
                    }
                    format!(r#"{{"k":"dyn","trait":{}}}"#, js(&n))
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!(r#"{{"k":"tuple","e":{}}}"#, arr(v))
                }
                RigidTy::Pat(t, _) => format!(r#"{{"k":"pat","e":{}}}"#, self.ty(t)),
                _ => format!(r#"{{"k":"other","d":{}}}"#, disp),
            },
            _ => format!(r#"{{"k":"other","d":{}}}"#, disp),
        }
    }

    /// Registers an instance; returns its key.
    fn inst(&mut self, i: Instance) -> String {
        let key = i.mangled_name();
        if !self.seen.contains_key(&key) {
            self.seen.insert(key.clone(), ());
            let def = i.def.name();
            let kind = match i.kind {
                InstanceKind::Item => "item".to_string(),
                InstanceKind::Intrinsic => "intrinsic".to_string(),
                InstanceKind::LlvmIntrinsic => "llvm".to_string(),
                InstanceKind::Virtual { idx } => format!("virtual{}", idx),
                InstanceKind::Shim => {
                    if i.is_empty_shim() {
                        "emptyshim".to_string()
                    } else {
                        "shim".to_string()
                    }
                }
            };
            let krate = i.def.krate().name;
            let name = i.name();
            let stopped = self.stop.iter().any(|p| def.starts_with(p.as_str()));
            let args = if matches!(i.kind, InstanceKind::Item | InstanceKind::Intrinsic) {
                let a = i.args();
                self.gargs(&a)
            } else {
                "[]".into()
            };
            let iname = i.intrinsic_name().unwrap_or_default();
            let c = format!(
                r#"{{"def":{},"name":{},"kind":"{}","crate":{},"targs":{},"iname":{}}}"#,
                js(&def),
                js(&name),
                kind,
                js(&krate),
                args,
                js(&iname)
            );
            self.callees.insert(key.clone(), c);
            if !stopped {
                self.queue.push_back(i);
            }
        }
        key
    }

    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local);
        }
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => r#""*""#.into(),
                ProjectionElem::Field(i, t) => format!(r#"["f",{},{}]"#, i, self.ty(*t)),
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!(r#"["ci",{},{},{}]"#, offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!(r#"["ss",{},{},{}]"#, from, to, from_end)
                }
                ProjectionElem::Downcast(v) => {
                    format!(r#"["d",{}]"#, vidx(&v))
                }
                ProjectionElem::OpaqueCast(t) => format!(r#"["oc",{}]"#, self.ty(*t)),
            });
        }
        arr(v)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["c",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["m",{}]"#, self.place(p)),
            Operand::Constant(c) => {
                format!(r#"["k",{},{}]"#, self.ty(c.const_.ty()), self.mirconst(&c.const_))
            }
            Operand::RuntimeChecks(r) => format!(
                r#"["rc",{}]"#,
                js(match r {
                    RuntimeChecks::UbChecks => "ub",
                    RuntimeChecks::ContractChecks => "contract",
                    RuntimeChecks::OverflowChecks => "overflow",
                })
            ),
        }
    }

    fn mirconst(&mut self, c: &MirConst) -> String {
        match c.kind() {
            ConstantKind::ZeroSized => r#"{"z":1}"#.into(),
            ConstantKind::Allocated(a) => self.alloc(c.ty(), a, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.alloc(*t, a, 0),
                TyConstKind::ZSTValue(_) => r#"{"z":1}"#.into(),
                _ => r#"{"?":"tyconst"}"#.into(),
            },
            _ => r#"{"?":"uneval"}"#.into(),
        }
    }

    fn uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }

    fn prov_at(&self, a: &Allocation, off: usize) -> Option<Prov> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| *p)
    }

    fn alloc(&mut self, t: Ty, a: &Allocation, off: usize) -> String {
        if self.depth > 12 {
            return r#"{"?":"deep"}"#.into();
        }
        self.depth += 1;
        let r = self.alloc0(t, a, off);
        self.depth -= 1;
        r.unwrap_or_else(|| r#"{"?":"const"}"#.into())
    }

    fn size_of(&self, t: Ty) -> Option<usize> {
        Some(t.layout().ok()?.shape().size.bytes())
    }

    fn alloc0(&mut self, t: Ty, a: &Allocation, off: usize) -> Option<String> {
        let k = t.kind();
        let r = k.rigid()?.clone();
        Some(match r {
            RigidTy::Bool => format!(r#"{{"i":{}}}"#, self.uint(a, off, 1)?),
            RigidTy::Char => format!(r#"{{"i":{}}}"#, self.uint(a, off, 4)?),
            RigidTy::Uint(u) => format!(r#"{{"i":{}}}"#, self.uint(a, off, u.num_bytes())?),
            RigidTy::Int(u) => {
                let n = u.num_bytes();
                let v = self.uint(a, off, n)?;
                let sh = 128 - 8 * n as u32;
                let s = ((v << sh) as i128) >> sh;
                format!(r#"{{"i":{}}}"#, s)
            }
            RigidTy::Float(f) => {
                let n = match f {
                    FloatTy::F32 => 4,
                    FloatTy::F64 => 8,
                    _ => return None,
                };
                format!(r#"{{"fl":{}}}"#, self.uint(a, off, n)?)
            }
            RigidTy::FnDef(..) => r#"{"z":1}"#.into(),
            RigidTy::FnPtr(_) => {
                let p = self.prov_at(a, off)?;
                match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Function(i) => format!(r#"{{"fn":{}}}"#, js(&self.inst(i))),
                    _ => return None,
                }
            }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let offs = match sh.fields {
                    FieldsShape::Arbitrary { offsets } => offsets,
                    _ => vec![],
                };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let o = offs.get(i)?.bytes();
                    v.push(self.alloc(*ft, a, off + o));
                }
                format!(r#"{{"t":{}}}"#, arr(v))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                if n > 4096 {
                    return None;
                }
                let sz = self.size_of(e)?;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.alloc(e, a, off + i * sz));
                }
                format!(r#"{{"arr":{}}}"#, arr(v))
            }
            RigidTy::Adt(def, args) => match def.kind() {
                AdtKind::Struct => {
                    let sh = t.layout().ok()?.shape();
                    let offs = match sh.fields {
                        FieldsShape::Arbitrary { offsets } => offsets,
                        FieldsShape::Primitive => vec![],
                        _ => return None,
                    };
                    let v = def.variants_iter().next()?;
                    let mut fs = vec![];
                    for (i, f) in v.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        let o = offs.get(i).map(|o| o.bytes()).unwrap_or(0);
                        fs.push(self.alloc(ft, a, off + o));
                    }
                    format!(r#"{{"v":0,"f":{}}}"#, arr(fs))
                }
                AdtKind::Enum => {
                    let sh = t.layout().ok()?.shape();
                    let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                        VariantsShape::Empty => return None,
                        VariantsShape::Single { index } => {
                            let offs = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => {
                                    offsets.iter().map(|o| o.bytes()).collect()
                                }
                                _ => vec![],
                            };
                            (vidx(&index), offs)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let tag_off = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => {
                                    offsets.get(*tag_field)?.bytes()
                                }
                                _ => 0,
                            };
                            let tsz = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. }
                                | rustc_public::abi::Scalar::Union { value } => {
                                    match value {
                                        rustc_public::abi::Primitive::Int { length, .. } => {
                                            length.bits() / 8
                                        }
                                        _ => 8,
                                    }
                                }
                            };
                            let is_ptr = self.prov_at(a, off + tag_off).is_some();
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let raw = self.uint(a, off + tag_off, tsz)?;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let mut found = None;
                                    for v in def.variants_iter() {
                                        if def.discriminant_for_variant(v.idx()).val & mask == raw {
                                            found = Some(vidx(&v.idx()));
                                        }
                                    }
                                    found?
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if is_ptr {
                                        vidx(&untagged_variant)
                                    } else {
                                        let raw = self.uint(a, off + tag_off, tsz)?;
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let s = vidx(&niche_variants.start());
                                        let e = vidx(&niche_variants.end());
                                        let rel = raw.wrapping_sub(*niche_start) & mask;
                                        if rel <= (e - s) as u128 {
                                            s + rel as usize
                                        } else {
                                            vidx(&untagged_variant)
                                        }
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                        }
                    };
                    let v = def.variants_iter().nth(vi)?;
                    let mut fs = vec![];
                    for (i, f) in v.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        let o = offs.get(i).copied().unwrap_or(0);
                        fs.push(self.alloc(ft, a, off + o));
                    }
                    format!(r#"{{"v":{},"f":{}}}"#, vi, arr(fs))
                }
                AdtKind::Union => return None,
            },
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let p = self.prov_at(a, off)?;
                let addr = self.uint(a, off, 8)? as usize;
                let tk = to.kind();
                let tr = tk.rigid()?.clone();
                let ga = GlobalAlloc::from(p.0);
                let (mem, stat) = match ga {
                    GlobalAlloc::Memory(m) => (m, None),
                    GlobalAlloc::Static(s) => {
                        let n = s.name();
                        (s.eval_initializer().ok()?, Some(n))
                    }
                    _ => return None,
                };
                let inner = match tr {
                    RigidTy::Str => {
                        let len = self.uint(a, off + 8, 8)? as usize;
                        let b: Option<Vec<u8>> = mem.bytes[addr..addr + len].iter().copied().collect();
                        let s = String::from_utf8(b?).ok()?;
                        format!(r#"{{"s":{}}}"#, js(&s))
                    }
                    RigidTy::Slice(e) => {
                        let len = self.uint(a, off + 8, 8)? as usize;
                        if len > 4096 {
                            return None;
                        }
                        let sz = self.size_of(e)?;
                        let mut v = vec![];
                        for i in 0..len {
                            v.push(self.alloc(e, &mem, addr + i * sz));
                        }
                        format!(r#"{{"arr":{}}}"#, arr(v))
                    }
                    RigidTy::Dynamic(..) => return None,
                    _ => self.alloc(to, &mem, addr),
                };
                match stat {
                    Some(n) => format!(r#"{{"r":{},"static":{}}}"#, inner, js(&n)),
                    None => format!(r#"{{"r":{}}}"#, inner),
                }
            }
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.operand(o)),
            Rvalue::CopyForDeref(p) => format!(r#"["use",["c",{}]]"#, self.place(p)),
            Rvalue::Ref(_, bk, p) => format!(
                r#"["ref",{},{}]"#,
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::Reborrow(_, m, p) => {
                format!(r#"["ref",{},{}]"#, *m == Mutability::Mut, self.place(p))
            }
            Rvalue::AddressOf(_, p) => format!(r#"["addr",{}]"#, self.place(p)),
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).unwrap();
                let s = format!(
                    r#"["bin","{:?}",{},{},{}]"#,
                    op,
                    self.operand(a),
                    self.operand(b),
                    self.ty(t)
                );
                s
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).unwrap();
                format!(
                    r#"["chk","{:?}",{},{},{}]"#,
                    op,
                    self.operand(a),
                    self.operand(b),
                    self.ty(t)
                )
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).unwrap();
                format!(r#"["un","{:?}",{},{}]"#, op, self.operand(a), self.ty(t))
            }
            Rvalue::Discriminant(p) => {
                let t = r.ty(locals).unwrap();
                format!(r#"["discr",{},{}]"#, self.place(p), self.ty(t))
            }
            Rvalue::Len(p) => format!(r#"["len",{}]"#, self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).unwrap();
                let extra = match k {
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                        match from.kind().rigid() {
                            Some(RigidTy::FnDef(d, a)) => {
                                match Instance::resolve_for_fn_ptr(*d, a) {
                                    Ok(i) => js(&self.inst(i)),
                                    Err(_) => "null".into(),
                                }
                            }
                            _ => "null".into(),
                        }
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                        match from.kind().rigid() {
                            Some(RigidTy::Closure(d, a)) => {
                                match Instance::resolve_closure(*d, a, ClosureKind::FnOnce) {
                                    Ok(i) => js(&self.inst(i)),
                                    Err(_) => "null".into(),
                                }
                            }
                            _ => "null".into(),
                        }
                    }
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => self.unsize(from, *t),
                    _ => "null".into(),
                };
                let kn = match k {
                    CastKind::PointerCoercion(c) => match c {
                        PointerCoercion::ReifyFnPointer(_) => "reify".to_string(),
                        PointerCoercion::ClosureFnPointer(_) => "closurefn".to_string(),
                        c => format!("{:?}", c),
                    },
                    k => format!("{:?}", k),
                };
                format!(
                    r#"["cast",{},{},{},{},{}]"#,
                    js(&kn),
                    self.operand(o),
                    self.ty(from),
                    self.ty(*t),
                    extra
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let t = r.ty(locals).unwrap();
                let tid = self.ty(t);
                let kk = match k {
                    AggregateKind::Array(_) => r#"["array"]"#.to_string(),
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(_, v, _, _, active) => {
                        match active {
                            Some(f) => format!(r#"["union",{}]"#, f),
                            None => format!(r#"["adt",{}]"#, vidx(&v)),
                        }
                    }
                    AggregateKind::Closure(..) => r#"["closure"]"#.to_string(),
                    AggregateKind::RawPtr(..) => r#"["rawptr"]"#.to_string(),
                    _ => r#"["other"]"#.to_string(),
                };
                format!(r#"["agg",{},{},{}]"#, kk, tid, arr(os))
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("-1".into());
                let t = r.ty(locals).unwrap();
                format!(r#"["repeat",{},{},{}]"#, self.operand(o), n, self.ty(t))
            }
            Rvalue::ThreadLocalRef(c) => format!(r#"["tls",{}]"#, js(&c.name())),
        }
    }

    fn unsize(&mut self, from: Ty, to: Ty) -> String {
        // Concrete type behind a dyn coercion: list its vtable.
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind().rigid()? {
                RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => Some(*t),
                RigidTy::Adt(d, a) if d.is_box() => match a.0.first()? {
                    GenericArgKind::Type(t) => Some(*t),
                    _ => None,
                },
                _ => None,
            }
        }
        (|| -> Option<String> {
            let f = pointee(from)?;
            let t = pointee(to)?;
            let tk = t.kind();
            if !matches!(tk.rigid()?, RigidTy::Dynamic(..)) {
                return None;
            }
            let tp = tk.trait_principal()?;
            if !tp.bound_vars.is_empty() {
                return None;
            }
            if f.kind().rigid().map_or(true, |r| matches!(r, RigidTy::Dynamic(..))) {
                return None;
            }
            let tr = tp.with_self_ty(f).skip_binder();
            let mut v = vec![];
            for e in tr.vtable_entries() {
                v.push(match e {
                    VtblEntry::Method(i) => js(&self.inst(i)),
                    _ => "null".into(),
                });
            }
            Some(format!(r#"{{"dyn":{},"vt":{}}}"#, self.ty(f), arr(v)))
        })()
        .unwrap_or("null".into())
    }

    fn stmt(&mut self, s: &Statement, locals: &[LocalDecl]) -> Option<String> {
        let line = s.source_info.span.get_lines().start_line;
        Some(match &s.kind {
            StatementKind::Assign(p, r) => {
                format!(r#"["=",{},{},{}]"#, self.place(p), self.rvalue(r, locals), line)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                format!(r#"["sd",{},{}]"#, self.place(place), vidx(&variant_index))
            }
            StatementKind::StorageDead(l) => format!(r#"["dead",{}]"#, l),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                format!(r#"["assume",{}]"#, self.operand(o))
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                r#"["cno"]"#.into()
            }
            _ => return None,
        })
    }

    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
        let li = t.source_info.span.get_lines();
        let line = li.start_line;
        match &t.kind {
            TerminatorKind::Goto { target } => format!(r#"["goto",{}]"#, target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let b: Vec<String> =
                    targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                let dt = discr.ty(locals).unwrap();
                format!(
                    r#"["switch",{},{},{},{},{}]"#,
                    self.operand(discr),
                    arr(b),
                    targets.otherwise(),
                    self.ty(dt),
                    line
                )
            }
            TerminatorKind::Resume | TerminatorKind::Abort => r#"["resume"]"#.into(),
            TerminatorKind::Return => r#"["ret"]"#.into(),
            TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(locals).unwrap();
                format!(r#"["drop",{},{},{}]"#, self.place(place), target, self.ty(ty))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(locals).unwrap();
                let f = match fty.kind().rigid() {
                    Some(RigidTy::FnDef(d, a)) => match Instance::resolve(*d, a) {
                        Ok(i) => js(&self.inst(i)),
                        Err(_) => format!(r#"{{"unres":{}}}"#, js(&d.name())),
                    },
                    _ => format!(r#"{{"ptr":{}}}"#, self.operand(func)),
                };
                let av: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                let at: Vec<String> = args
                    .iter()
                    .map(|o| o.ty(locals).unwrap())
                    .map(|t| self.ty(t).to_string())
                    .collect();
                let dt = destination.ty(locals).unwrap();
                format!(
                    r#"["call",{},{},{},{},{},{},{}]"#,
                    f,
                    arr(av),
                    self.place(destination),
                    target.map(|t| t.to_string()).unwrap_or("null".into()),
                    line,
                    arr(at),
                    self.ty(dt)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { len, index } => format!(
                        r#"["bounds",{},{}]"#,
                        self.operand(len),
                        self.operand(index)
                    ),
                    AssertMessage::Overflow(op, a, b) => {
                        format!(r#"["overflow","{:?}",{},{}]"#, op, self.operand(a), self.operand(b))
                    }
                    m => format!(r#"[{}]"#, js(m.description().unwrap_or("assert"))),
                };
                format!(
                    r#"["assert",{},{},{},{},{}]"#,
                    self.operand(cond),
                    expected,
                    m,
                    target,
                    line
                )
            }
            TerminatorKind::InlineAsm { .. } => r#"["asm"]"#.into(),
        }
    }

    fn body(&mut self, i: Instance, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut bs = vec![];
        for blk in &b.blocks {
            let mut ss = vec![];
            for s in &blk.statements {
                if let Some(x) = self.stmt(s, &locals) {
                    ss.push(x);
                }
            }
            let t = self.term(&blk.terminator, &locals);
            bs.push(format!("[{},{}]", arr(ss), t));
        }
        let mut vars = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                vars.push(format!("[{},{}]", js(&v.name), self.place(p)));
            }
        }
        let li = b.span.get_lines();
        format!(
            r#"{{"key":{},"nargs":{},"spread":{},"locals":{},"vars":{},"file":{},"line":{},"end":{},"blocks":{}}}"#,
            js(&i.mangled_name()),
            b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            arr(lt),
            arr(vars),
            js(&b.span.get_filename()),
            li.start_line,
            li.end_line,
            arr(bs)
        )
    }
}

struct TyDisp(Ty);
impl std::fmt::Display for TyDisp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s = format!("{:?}", self.0.kind());
        write!(f, "{}", &s[..s.len().min(200).min(s.char_indices().take(200).last().map(|x| x.0).unwrap_or(0))])
    }
}

fn dump() -> ControlFlow<(), ()> {
    let out = match std::env::var("MIRDUMP_OUT") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let mut d = D::default();
    if let Ok(p) = std::env::var("MIRDUMP_STOP") {
        if let Ok(s) = std::fs::read_to_string(p) {
            d.stop = s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
        }
    }
    let all = std::env::var("MIRDUMP_ALL").is_ok();
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), ItemKind::Fn) || it.requires_monomorphization() {
            continue;
        }
        let n = it.name();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if !(all || last.starts_with("root_") || last == "main") {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let k = d.inst(i);
            roots.push(format!("{}:{}", js(&last), js(&k)));
        }
    }
    let mut fns = vec![];
    let mut done = HashSet::new();
    while let Some(i) = d.queue.pop_front() {
        let key = i.mangled_name();
        if !done.insert(key) {
            continue;
        }
        if matches!(i.kind, InstanceKind::Virtual { .. }) || (matches!(i.kind, InstanceKind::Item) && !i.has_body()) {
            continue;
        }
        if i.is_foreign_item() {
            continue;
        }
        if let Some(b) = i.body() {
            let s = d.body(i, &b);
            fns.push(s);
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    writeln!(f, "{{\"types\":[").unwrap();
    writeln!(f, "{}", d.ty_json.join(",\n")).unwrap();
    writeln!(f, "],\"callees\":{{").unwrap();
    let cs: Vec<String> = d.callees.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    writeln!(f, "{}", cs.join(",\n")).unwrap();
    writeln!(f, "}},\"roots\":{{{}}},\"fns\":[", roots.join(",")).unwrap();
    writeln!(f, "{}", fns.join(",\n")).unwrap();
    writeln!(f, "]}}").unwrap();
    f.flush().unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a workspace wrapper argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut mine = false;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            if let Some(n) = it.next() {
                mine = *n == want;
            }
        }
    }
    let info = args.iter().any(|a| a == "-vV" || a == "--print" || a.starts_with("--print=") || a == "-");
    if !mine || info {
        let st = std::process::Command::new(std::env::args().nth(1).unwrap())
            .args(&std::env::args().skip(2).collect::<Vec<_>>())
            .status()
            .unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run!(&args, dump);
    if r.is_err() {
        std::process::exit(1);
    }
}
