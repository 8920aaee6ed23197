//! MIR dumper: a rustc wrapper that type-checks the crate being built with the
//! real compiler and writes the resolved, monomorphised MIR that is reachable
//! from its items, its types and its decoded constants, as JSON.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
extern crate rustc_ast;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

use rustc_ast::attr::AttributeExt;
use rustc_middle::ty::TyCtxt;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, DefId};
use rustc_public::rustc_internal;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

// Bodies of these external items are not dumped: the analysis has summaries for them.
const STOP: &[&str] = &[
    "std::fmt", "core::fmt", "alloc::fmt", "std::rt", "core::panicking", "std::panicking", "alloc::raw_vec", "alloc::alloc", "std::alloc",
    "std::io", "alloc::vec::Vec::", "alloc::string::String::", "alloc::vec::into_iter", "core::slice::iter::", "alloc::collections", "std::collections",
    "core::str::", "alloc::str", "core::unicode", "core::char", "core::slice::sort", "core::ptr::", "core::alloc",
    "alloc::boxed", "alloc::rc", "alloc::sync", "core::slice::memchr", "core::num::fmt", "core::num::imp", "std::thread", "std::sync",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    fns: HashMap<Instance, usize>,
    fn_out: BTreeMap<usize, String>,
    queue: VecDeque<(Instance, usize, usize)>,
    seen_alloc: HashSet<String>,
    iter_next: Option<FnDef>,
    next_map: Vec<(usize, usize)>,
    tried_next: HashSet<Ty>,
    src_next: HashMap<String, FnDef>,
}

impl<'tcx> Cx<'tcx> {
    fn args(&mut self, a: &GenericArgs) -> String {
        let v = a
            .0
            .iter()
            .filter_map(|k| match k {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(q(&match c.eval_target_usize() {
                    Ok(n) => n.to_string(),
                    Err(_) => format!("{c:?}"),
                })),
            })
            .collect();
        arr(v)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let name = format!("{t}");
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#"{"k":"bool"}"#.to_string(),
                RigidTy::Char => r#"{"k":"char"}"#.to_string(),
                RigidTy::Int(x) => format!(r#"{{"k":"int","bits":{},"signed":true}}"#, x.num_bytes() * 8),
                RigidTy::Uint(x) => format!(r#"{{"k":"int","bits":{},"signed":false}}"#, x.num_bytes() * 8),
                RigidTy::Float(x) => format!(
                    r#"{{"k":"float","bits":{}}}"#,
                    match x {
                        FloatTy::F16 => 16,
                        FloatTy::F32 => 32,
                        FloatTy::F64 => 64,
                        FloatTy::F128 => 128,
                    }
                ),
                RigidTy::Str => r#"{"k":"str"}"#.to_string(),
                RigidTy::Never => r#"{"k":"never"}"#.to_string(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into());
                    format!(r#"{{"k":"array","elem":{e},"len":{n}}}"#)
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    format!(r#"{{"k":"slice","elem":{e}}}"#)
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    format!(r#"{{"k":"ptr","to":{e},"mut":{}}}"#, m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    format!(r#"{{"k":"ref","to":{e},"mut":{}}}"#, m == Mutability::Mut)
                }
                RigidTy::Tuple(v) => {
                    let v = v.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!(r#"{{"k":"tuple","elems":{}}}"#, arr(v))
                }
                RigidTy::Adt(def, args) => {
                    let a = self.args(&args);
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let mut vs = vec![];
                    for v in def.variants() {
                        let idx = v.idx();
                        let d = if kind == "enum" { def.discriminant_for_variant(idx).val } else { 0 };
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| format!("[{},{}]", q(&f.name), self.ty(f.ty_with_args(&args))))
                            .collect();
                        vs.push(format!(r#"{{"name":{},"discr":"{}","fields":{}}}"#, q(&v.name()), d, arr(fs)));
                    }
                    format!(
                        r#"{{"k":"adt","adt":"{kind}","path":{},"krate":{},"args":{a},"variants":{}}}"#,
                        q(&def.name()),
                        q(&def.krate().name),
                        arr(vs)
                    )
                }
                RigidTy::FnDef(d, args) => {
                    let a = self.args(&args);
                    let inst = Instance::resolve(d, &args).ok().map(|i| self.inst(i, 0).to_string()).unwrap_or("null".into());
                    format!(r#"{{"k":"fndef","path":{},"args":{a},"inst":{inst}}}"#, q(&d.name()))
                }
                RigidTy::FnPtr(_) => r#"{"k":"fnptr"}"#.to_string(),
                RigidTy::Closure(d, args) => {
                    let a = self.args(&args);
                    // upvar types: the last generic argument is a tuple of them
                    let ups = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(v)) => v.iter().map(|t| self.ty(*t).to_string()).collect(),
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    let body = Instance::resolve_closure(d, &args, ClosureKind::Fn)
                        .ok()
                        .map(|i| self.inst(i, 0).to_string())
                        .unwrap_or("null".into());
                    format!(r#"{{"k":"closure","path":{},"args":{a},"upvars":{},"inst":{body}}}"#, q(&d.name()), arr(ups))
                }
                RigidTy::Dynamic(..) => r#"{"k":"dyn"}"#.to_string(),
                _ => r#"{"k":"other"}"#.to_string(),
            },
            _ => r#"{"k":"other"}"#.to_string(),
        };
        self.ty_out[i] = format!(r#"{{"n":{},{}"#, q(&name), &s[1..]);
        i
    }

    fn inst(&mut self, i: Instance, depth: usize) -> usize {
        if let Some(x) = self.fns.get(&i) {
            return *x;
        }
        let id = self.fns.len();
        self.fns.insert(i, id);
        self.queue.push_back((i, id, depth));
        id
    }

    fn span(&self, s: &rustc_public::ty::Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }

    fn place(&mut self, p: &Place) -> String {
        let proj: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => r#"["*"]"#.to_string(),
                ProjectionElem::Field(i, t) => format!(r#"["f",{},{}]"#, i, self.ty(*t)),
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!(r#"["c",{offset},{min_length},{from_end}]"#)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["s",{from},{to},{from_end}]"#),
                ProjectionElem::Downcast(v) => format!(r#"["d",{}]"#, v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!(r#"["o",{}]"#, self.ty(*t)),
            })
            .collect();
        format!("[{},{}]", p.local, arr(proj))
    }

    fn read_uint(b: &[Option<u8>]) -> Option<u128> {
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() {
            v |= ((*x)? as u128) << (8 * i);
        }
        Some(v)
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        let tid = self.ty(t);
        let opaque = || r#"["opaque"]"#.to_string();
        if depth > 12 {
            return opaque();
        }
        let Ok(lay) = t.layout() else { return opaque() };
        let sh = lay.shape();
        let size = sh.size.bytes();
        if off + size > a.bytes.len() {
            return opaque();
        }
        let raw = &a.bytes[off..off + size];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Int(_) => match Self::read_uint(raw) {
                    Some(v) => {
                        let s = match r {
                            RigidTy::Int(_) => {
                                let bits = size * 8;
                                let v = if bits < 128 && (v >> (bits - 1)) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                                v.to_string()
                            }
                            _ => v.to_string(),
                        };
                        format!(r#"["int","{s}",{tid}]"#)
                    }
                    None => opaque(),
                },
                RigidTy::Float(_) => match Self::read_uint(raw) {
                    Some(v) => format!(r#"["float","{v}",{tid}]"#),
                    None => opaque(),
                },
                RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                    let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else { return opaque() };
                    let addend = Self::read_uint(&a.bytes[off..off + 8]).unwrap_or(0) as usize;
                    match GlobalAlloc::from(prov.0) {
                        GlobalAlloc::Memory(m) => match to.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let Some(n) = Self::read_uint(&a.bytes[off + 8..off + 16]) else { return opaque() };
                                let b: Vec<String> =
                                    m.bytes[addend..addend + n as usize].iter().map(|x| x.unwrap_or(0).to_string()).collect();
                                format!(r#"["str",{},{tid}]"#, arr(b))
                            }
                            TyKind::RigidTy(RigidTy::Slice(e)) => {
                                let Some(n) = Self::read_uint(&a.bytes[off + 8..off + 16]) else { return opaque() };
                                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if n > 4096 {
                                    return opaque();
                                }
                                let v = (0..n as usize).map(|i| self.decode(&m, addend + i * es, e, depth + 1)).collect();
                                format!(r#"["slice",{},{tid}]"#, arr(v))
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque(),
                            _ => {
                                let v = self.decode(&m, addend, to, depth + 1);
                                format!(r#"["ref",{v},{tid}]"#)
                            }
                        },
                        GlobalAlloc::Static(d) => format!(r#"["static",{},{tid}]"#, q(&d.name())),
                        _ => opaque(),
                    }
                }
                RigidTy::FnPtr(_) => {
                    let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else { return opaque() };
                    match GlobalAlloc::from(prov.0) {
                        GlobalAlloc::Function(i) => format!(r#"["fnptr",{},{tid}]"#, self.inst(i, 0)),
                        _ => opaque(),
                    }
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0);
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    if n > 4096 {
                        return opaque();
                    }
                    let v = (0..n as usize).map(|i| self.decode(a, off + i * es, e, depth + 1)).collect();
                    format!(r#"["agg",0,{},{tid}]"#, arr(v))
                }
                RigidTy::Tuple(v) => {
                    let offs = match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>(),
                        _ => vec![0; v.len()],
                    };
                    let v = v.iter().enumerate().map(|(i, t)| self.decode(a, off + offs[i], *t, depth + 1)).collect();
                    format!(r#"["agg",0,{},{tid}]"#, arr(v))
                }
                RigidTy::Adt(def, args) => {
                    if def.kind() == AdtKind::Union {
                        return opaque();
                    }
                    let (vidx, offs): (usize, Vec<usize>) = match &sh.variants {
                        VariantsShape::Empty => return opaque(),
                        VariantsShape::Single { index } => {
                            let o = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                                _ => vec![],
                            };
                            (index.to_index(), o)
                        }
                        VariantsShape::Multiple { tag_encoding, tag_field, variants, tag } => {
                            let toff = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => 0,
                            };
                            let tsize = tag_size(tag);
                            let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let tv = Self::read_uint(&a.bytes[off + toff..off + toff + tsize]);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(tv) = tv else { return opaque() };
                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                    let mut r = None;
                                    for v in def.variants() {
                                        if def.discriminant_for_variant(v.idx()).val & mask == tv {
                                            r = Some(v.idx().to_index());
                                        }
                                    }
                                    match r {
                                        Some(r) => r,
                                        None => return opaque(),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if has_ptr {
                                        untagged_variant.to_index()
                                    } else {
                                        let Some(tv) = tv else { return opaque() };
                                        let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        let lo = niche_variants.start().to_index() as u128;
                                        let hi = niche_variants.end().to_index() as u128;
                                        if rel <= hi - lo {
                                            (lo + rel) as usize
                                        } else {
                                            untagged_variant.to_index()
                                        }
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                        }
                    };
                    let Some(var) = def.variants().into_iter().nth(vidx) else { return opaque() };
                    let v = var
                        .fields()
                        .iter()
                        .enumerate()
                        .map(|(i, f)| {
                            let t = f.ty_with_args(&args);
                            self.decode(a, off + offs.get(i).copied().unwrap_or(0), t, depth + 1)
                        })
                        .collect();
                    format!(r#"["agg",{vidx},{},{tid}]"#, arr(v))
                }
                RigidTy::FnDef(d, args) => match Instance::resolve(d, &args) {
                    Ok(i) => format!(r#"["fn",{},{tid}]"#, self.inst(i, 0)),
                    Err(_) => opaque(),
                },
                RigidTy::Closure(..) if size == 0 => format!(r#"["agg",0,[],{tid}]"#),
                _ => opaque(),
            },
            _ => opaque(),
        }
    }

    fn constant(&mut self, c: &ConstOperand, depth: usize) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = t.kind() {
            return match Instance::resolve(d, &args) {
                Ok(i) => format!(r#"["fn",{},{tid}]"#, self.inst(i, depth + 1)),
                Err(_) => format!(r#"["fnunres",{},{tid}]"#, q(&d.name())),
            };
        }
        match c.const_.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::Tuple(v)) if v.is_empty() => format!(r#"["agg",0,[],{tid}]"#),
                _ => format!(r#"["zst",{tid}]"#),
            },
            ConstantKind::Ty(k) => match k.eval_target_usize() {
                Ok(n) => format!(r#"["int","{n}",{tid}]"#),
                Err(_) => format!(r#"["opaque",{tid}]"#),
            },
            _ => format!(r#"["opaque",{tid}]"#),
        }
    }

    fn op(&mut self, o: &Operand, d: usize) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["cp",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["mv",{}]"#, self.place(p)),
            Operand::Constant(c) => format!(r#"["k",{}]"#, self.constant(c, d)),
            Operand::RuntimeChecks(c) => format!(r#"["rt","{c:?}"]"#),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, d: usize) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!(r#"["addr",{}]"#, self.place(p)),
            Rvalue::Ref(_, k, p) => format!(r#"["ref",{},{}]"#, self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::BinaryOp(b, x, y) => format!(r#"["bin","{b:?}",{},{}]"#, self.op(x, d), self.op(y, d)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!(r#"["cbin","{b:?}",{},{}]"#, self.op(x, d), self.op(y, d)),
            Rvalue::UnaryOp(b, x) => format!(r#"["un","{b:?}",{}]"#, self.op(x, d)),
            Rvalue::Cast(k, x, t) => {
                let kk = match k {
                    CastKind::PointerCoercion(p) => format!("PointerCoercion:{p:?}"),
                    _ => format!("{k:?}"),
                };
                format!(r#"["cast",{},{},{}]"#, q(&kk), self.op(x, d), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!(r#"["use",["cp",{}]]"#, self.place(p)),
            Rvalue::Use(o, ..) => format!(r#"["use",{}]"#, self.op(o, d)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::Len(p) => format!(r#"["len",{}]"#, self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                r#"["repeat",{},{}]"#,
                self.op(o, d),
                n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Aggregate(k, v) => {
                let ops = arr(v.iter().map(|o| self.op(o, d)).collect());
                match k {
                    AggregateKind::Array(t) => format!(r#"["agg","array",0,{ops},{}]"#, self.ty(*t)),
                    AggregateKind::Tuple => format!(r#"["agg","tuple",0,{ops},null]"#),
                    AggregateKind::Adt(def, vi, args, _, f) => {
                        let t = self.ty(def.ty_with_args(args));
                        match f {
                            Some(f) => format!(r#"["agg","union",{f},{ops},{t}]"#),
                            None => format!(r#"["agg","adt",{},{ops},{t}]"#, vi.to_index()),
                        }
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = self.ty(Ty::new_closure(*def, args.clone()));
                        format!(r#"["agg","closure",0,{ops},{t}]"#)
                    }
                    AggregateKind::RawPtr(t, _) => format!(r#"["agg","rawptr",0,{ops},{}]"#, self.ty(*t)),
                    _ => r#"["opaque"]"#.to_string(),
                }
            }
            Rvalue::ThreadLocalRef(i) => format!(r#"["tls",{}]"#, q(&i.name())),
            #[allow(unreachable_patterns)]
            other => {
                let s = format!("{other:?}");
                if let Some(p) = reborrow_place(other) {
                    format!(r#"["use",["cp",{}]]"#, self.place(&p))
                } else {
                    format!(r#"["opaque",{}]"#, q(&s))
                }
            }
        }
    }

    fn body(&mut self, b: &Body, d: usize, inst: &Instance) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{l},{}]", q(&v.name)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = q(&self.span(&s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let r2 = self.rvalue(r, d);
                        st.push(format!(r#"["=",{},{},{sp}]"#, self.place(p), r2))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(r#"["sd",{},{},{sp}]"#, self.place(place), variant_index.to_index()))
                    }
                    StatementKind::StorageDead(l) => st.push(format!(r#"["dead",{l}]"#)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let o = self.op(o, d);
                        st.push(format!(r#"["assume",{o}]"#))
                    }
                    StatementKind::Intrinsic(_) => st.push(format!(r#"["intr",{sp}]"#)),
                    _ => {}
                }
            }
            let sp = q(&self.span(&bb.terminator.source_info.span));
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!(r#"["goto",{target}]"#),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = targets.branches().map(|(v, t)| format!(r#"["{v}",{t}]"#)).collect();
                    let ty = discr.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                    format!(r#"["switch",{},{},{},{sp},{ty}]"#, self.op(discr, d), arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => r#"["resume"]"#.into(),
                TerminatorKind::Abort => r#"["abort"]"#.into(),
                TerminatorKind::Return => r#"["ret"]"#.into(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).unwrap();
                    let di = Instance::resolve_drop_in_place(t);
                    let id = if di.is_empty_shim() { "null".to_string() } else { self.inst(di, d + 1).to_string() };
                    format!(r#"["drop",{},{target},{id},{},{sp}]"#, self.place(place), self.ty(t))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a = arr(args.iter().map(|o| self.op(o, d)).collect());
                    format!(
                        r#"["call",{},{a},{},{},{sp}]"#,
                        self.op(func, d),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<&Operand>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![len, index]),
                        AssertMessage::Overflow(b, x, y) => (format!("Overflow:{b:?}"), vec![x, y]),
                        AssertMessage::OverflowNeg(x) => ("OverflowNeg".into(), vec![x]),
                        AssertMessage::DivisionByZero(x) => ("DivisionByZero".into(), vec![x]),
                        AssertMessage::RemainderByZero(x) => ("RemainderByZero".into(), vec![x]),
                        AssertMessage::NullPointerDereference => ("NullPointerDereference".into(), vec![]),
                        AssertMessage::MisalignedPointerDereference { .. } => ("MisalignedPointerDereference".into(), vec![]),
                        AssertMessage::InvalidEnumConstruction(x) => ("InvalidEnumConstruction".into(), vec![x]),
                        m => (format!("{m:?}"), vec![]),
                    };
                    let ops = arr(ops.into_iter().map(|o| self.op(o, d)).collect());
                    format!(r#"["assert",{},{expected},{},{ops},{target},{sp}]"#, self.op(cond, d), q(&k))
                }
                TerminatorKind::InlineAsm { .. } => format!(r#"["asm",{sp}]"#),
            };
            blocks.push(format!("[{},{t}]", arr(st)));
        }
        let _ = inst;
        format!(
            r#"{{"argc":{},"locals":{},"names":{},"spread":{},"blocks":{}}}"#,
            b.arg_locals().len(),
            arr(locals),
            arr(names),
            b.spread_arg().map(|s| s.to_string()).unwrap_or("null".into()),
            arr(blocks)
        )
    }

    fn doc_panics(&self, d: DefId) -> bool {
        let did = rustc_internal::internal(self.tcx, d);
        self.tcx.get_all_attrs(did).iter().any(|a| match a.doc_str() {
            Some(s) => {
                let s = s.as_str();
                s.lines().any(|l| {
                    let l = l.trim();
                    l.starts_with('#') && l.trim_start_matches('#').trim().to_ascii_lowercase().starts_with("panic")
                })
            }
            None => false,
        })
    }

    fn maybe_next(&mut self, t: Ty) {
        if !self.tried_next.insert(t) {
            return;
        }
        for (tr, f) in self.src_next.clone() {
            let args = GenericArgs(vec![GenericArgKind::Type(t)]);
            let Ok(i) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve(f, &args))) else { continue };
            if let Ok(i) = i {
                let id = self.inst(i, 1);
                let ti = self.ty(t);
                let _ = &tr;
                self.next_map.push((ti, id));
                let _ = writeln!(EXTRA.lock().unwrap(), "{tr}\t{ti}\t{id}");
            }
        }
    }
}

static EXTRA: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn reborrow_place(r: &Rvalue) -> Option<Place> {
    #[allow(unreachable_patterns)]
    match r {
        Rvalue::Reborrow(_, _, p) => Some(p.clone()),
        _ => None,
    }
}

fn tag_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match s {
        Scalar::Initialized { value, .. } | Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => length_bytes(&format!("{length:?}")),
        Primitive::Float { length } => length_bytes(&format!("{length:?}")),
        Primitive::Pointer(_) => 8,
    }
}
fn length_bytes(s: &str) -> usize {
    s.trim_matches(|c: char| !c.is_ascii_digit()).parse::<usize>().unwrap() / 8
}

fn callback(tcx: TyCtxt<'_>, out: &str, krate: &str) -> ControlFlow<()> {
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        fns: HashMap::new(),
        fn_out: BTreeMap::new(),
        queue: VecDeque::new(),
        seen_alloc: HashSet::new(),
        iter_next: None,
        next_map: vec![],
        tried_next: HashSet::new(),
        src_next: HashMap::new(),
    };
    let _ = (&cx.seen_alloc, &cx.iter_next);
    // Iterator::next, IntoIterator::into_iter (to model consumers such as collect/extend)
    for c in rustc_public::external_crates() {
        if c.name == "core" {
            for t in c.trait_decls() {
                let n = t.name();
                if n == "std::iter::Iterator" || n == "core::iter::Iterator" || n.ends_with("iter::Iterator") {
                    for it in t.associated_items() {
                        if let AssocKind::Fn { name, .. } = &it.kind {
                            if name == "next" {
                                cx.src_next.insert("next".into(), FnDef(it.def_id.0));
                            }
                        }
                    }
                }
                if n.ends_with("iter::IntoIterator") {
                    for it in t.associated_items() {
                        if let AssocKind::Fn { name, .. } = &it.kind {
                            if name == "into_iter" {
                                cx.src_next.insert("into_iter".into(), FnDef(it.def_id.0));
                            }
                        }
                    }
                }
            }
        }
    }
    let mut roots = vec![];
    let mut items = vec![];
    for it in rustc_public::all_local_items() {
        items.push(format!(
            r#"{{"name":{},"kind":"{:?}","generic":{},"span":{}}}"#,
            q(&it.name()),
            it.kind(),
            it.requires_monomorphization(),
            q(&cx.span(&it.span()))
        ));
        if let Ok(i) = Instance::try_from(it) {
            if it.kind() == rustc_public::ItemKind::Fn {
                roots.push(cx.inst(i, 0).to_string());
            }
        }
    }
    while let Some((i, id, depth)) = cx.queue.pop_front() {
        let name = i.name();
        let def = i.def.def_id();
        let krate_of = i.def.krate().name;
        let path = format!("{}", i.def.name());
        let local = krate_of == krate;
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".into(),
            InstanceKind::LlvmIntrinsic => "llvm".into(),
            InstanceKind::Virtual { .. } => "virtual".into(),
            InstanceKind::Shim => "shim".into(),
        };
        let args = cx.args(&i.args());
        for a in &i.args().0 {
            if let GenericArgKind::Type(t) = a {
                if !local && matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(..) | RigidTy::Ref(..) | RigidTy::Array(..))) {
                    cx.maybe_next(*t);
                }
            }
        }
        let npath = path.replace("std::", "core::");
        let stop = !local && STOP.iter().any(|s| path.starts_with(s) || npath.starts_with(s) || path.starts_with(&s.replace("core::", "std::").replace("alloc::", "std::")));
        let stop = stop && i.kind != InstanceKind::Shim;
        let mut body = "null".to_string();
        if (local || depth <= 14) && !stop && kind != "virtual" && kind != "llvm" && i.has_body() {
            if let Some(b) = i.body() {
                body = cx.body(&b, if local { 0 } else { depth + 1 }, &i);
            }
        }
        // signature
        let mut sig = "null".to_string();
        if let Some(fs) = i.ty().kind().fn_sig() {
            let s = fs.skip_binder();
            let ins = arr(s.inputs().iter().map(|t| cx.ty(*t).to_string()).collect());
            let o = cx.ty(s.output());
            sig = format!("[{ins},{o}]");
        }
        let intr = i.intrinsic_name().map(|s| q(&s)).unwrap_or("null".into());
        let dp = !local && cx.doc_panics(def);
        let unsafe_fn = i.ty().kind().fn_sig().map(|f| format!("{:?}", f.skip_binder().safety).contains("Unsafe")).unwrap_or(false);
        let span = q(&cx.span(&i.def.span()));
        cx.fn_out.insert(
            id,
            format!(
                r#"{{"id":{id},"name":{},"path":{},"krate":{},"local":{local},"kind":"{kind}","intrinsic":{intr},"args":{args},"sig":{sig},"doc_panics":{dp},"unsafe":{unsafe_fn},"span":{span},"depth":{depth},"body":{body}}}"#,
                q(&name),
                q(&path),
                q(&krate_of)
            ),
        );
    }
    let fns = cx.fn_out.values().cloned().collect::<Vec<_>>().join(",\n");
    let extra = EXTRA.lock().unwrap().clone();
    let ex: Vec<String> = extra
        .lines()
        .map(|l| {
            let p: Vec<&str> = l.split('\t').collect();
            format!(r#"["{}",{},{}]"#, p[0], p[1], p[2])
        })
        .collect();
    let text = format!(
        "{{\"crate\":{},\"roots\":{},\"items\":[{}],\"iters\":{},\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n]}}\n",
        q(krate),
        arr(roots),
        items.join(","),
        arr(ex),
        cx.ty_out.join(",\n"),
        fns
    );
    std::fs::write(out, text).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or("lunify".into());
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if krate.as_deref() == Some(&want) && !out.is_empty() && !is_test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=yes".into());
        let r = rustc_public::run_with_tcx!(&args, |tcx| callback(tcx, &out, &want));
        match r {
            Ok(_) => {}
            Err(rustc_public::CompilerError::Skipped) => {}
            Err(e) => {
                eprintln!("mirdump: {e:?}");
                std::process::exit(1);
            }
        }
    } else {
        let status = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(status.code().unwrap_or(1));
    }
}
