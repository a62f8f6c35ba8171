//! Compiler driver used as RUSTC_WRAPPER.
//!
//! For the crates under analysis it runs the ordinary compiler and, after type
//! checking and borrow checking, writes the monomorphic MIR of every function
//! reachable from the crate's roots as one JSON file.  All other crates are
//! compiled by the unmodified compiler.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

mod json;

use json::J;
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{HashMap, VecDeque};
use std::ops::ControlFlow;
use std::process::{exit, Command};

struct Cx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    types: Vec<J>,
    ty_ids: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    inst_ids: HashMap<Instance, usize>,
    queue: VecDeque<usize>,
    next_of: HashMap<Ty, usize>,
    files: Vec<String>,
    file_ids: HashMap<String, usize>,
    statics: Vec<J>,
    depth: usize,
}

fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}
fn tag(t: &str, mut rest: Vec<J>) -> J {
    let mut v = vec![s(t)];
    v.append(&mut rest);
    J::A(v)
}

/// library functions whose bodies are part of the analysed program (small
/// combinators); everything else in std is a named external operation
const STD_INLINE: &[&str] = &[
    "std::option::",
    "std::result::",
    "std::ops::",
    "std::cmp::",
    "std::convert::",
    "std::clone::",
    "std::default::",
    "std::mem::swap",
    "std::mem::replace",
    "std::mem::take",
    "std::iter::adapters::",
    "std::iter::Map",
    "std::iter::Enumerate",
    "std::iter::Take",
    "std::iter::Skip",
    "std::iter::Filter",
    "std::iter::range::",
    "std::iter::traits::",
    "std::iter::Iterator::by_ref",
    "std::iter::Iterator::map",
    "std::bool::",
    "core::bool::",
    "std::borrow::",
    "std::num::",
    "core::num::",
];

/// parts of core that stay named external operations
const CORE_EXTERNAL: &[&str] = &[
    "std::fmt::",
    "core::fmt::",
    "std::panicking::",
    "core::panicking::",
    "std::ptr::",
    "core::ptr::",
    "std::intrinsics::",
    "std::str::",
    "core::str::",
    "std::slice::sort",
    "core::slice::sort",
    "core::slice::",
    "std::slice::",
    "std::array::",
    "core::array::",
    "core::unicode::",
    "std::char::",
    "core::char::",
    "std::cell::",
    "std::sync::",
    "std::hint::",
    "std::mem::",
    "std::alloc::",
    "std::time::",
    "std::any::",
    "std::pin::",
    "std::task::",
    "std::future::",
    "std::ffi::",
    "core::num::flt2dec",
    "core::num::dec2flt",
    "core::num::bignum",
    "core::num::imp",
];

fn strip_impl(p: &str) -> String {
    // "<std::result::Result<T, E> as std::ops::Try>::branch" -> type path and trait path
    p.replace('<', " ").replace('>', " ")
}

fn wanted(krate: &str, path: &str) -> bool {
    match krate {
        "core" | "alloc" | "std" => {
            let q = strip_impl(path);
            let head = q.trim_start().trim_start_matches('&').trim_start_matches("mut ");
            (krate == "core" && !CORE_EXTERNAL.iter().any(|p| head.starts_with(p)))
                || STD_INLINE.iter().any(|p| head.starts_with(p))
                || (path.starts_with('<')
                    && [
                        "as std::ops::Try",
                        "as std::ops::FromResidual",
                        "as std::convert::From",
                        "as std::convert::Into",
                        "as std::convert::AsRef",
                        "as std::convert::TryFrom",
                        "as std::convert::TryInto",
                        "as std::iter::IntoIterator",
                        "as std::cmp::",
                        "as std::clone::Clone",
                        "as std::default::Default",
                        "as std::ops::Fn",
                        "as std::borrow::Borrow",
                    ]
                    .iter()
                    .any(|t| path.contains(t)))
        }
        "poppy_filters" | "harness" | "poppy" | "poppy_py" => true,
        _ => false,
    }
}

impl<'tcx> Cx<'tcx> {
    fn file(&mut self, f: String) -> usize {
        if let Some(i) = self.file_ids.get(&f) {
            return *i;
        }
        let i = self.files.len();
        self.files.push(f.clone());
        self.file_ids.insert(f, i);
        i
    }

    fn span(&mut self, sp: Span) -> J {
        let l = sp.get_lines().start_line;
        let f = self.file(sp.get_filename().to_string());
        J::A(vec![n(f), n(l)])
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let id = self.insts.len();
        self.insts.push(i);
        self.inst_ids.insert(i, id);
        self.queue.push_back(id);
        id
    }

    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in a.0.iter() {
            match x {
                GenericArgKind::Type(t) => v.push(n(self.ty(*t))),
                GenericArgKind::Const(c) => v.push(tag("c", vec![self.tyconst(c)])),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }

    fn tyconst(&mut self, c: &TyConst) -> J {
        if let Ok(v) = c.eval_target_usize() {
            return J::I(v as i128);
        }
        match c.kind() {
            TyConstKind::Value(t, a) => self.decode(*t, a, 0),
            k => s(format!("{k:?}")),
        }
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.ty_ids.insert(t, id);
        let j = self.mk_ty(t);
        self.types[id] = j;
        id
    }

    fn mk_ty(&mut self, t: Ty) -> J {
        let o = |k: &str, mut v: Vec<(&str, J)>| {
            let mut w = vec![("k", s(k))];
            w.append(&mut v);
            J::O(w.into_iter().map(|(a, b)| (a.to_string(), b)).collect())
        };
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o("bool", vec![]),
                RigidTy::Char => o("char", vec![]),
                RigidTy::Int(i) => o("int", vec![("n", s(format!("{i:?}").to_lowercase()))]),
                RigidTy::Uint(i) => o("int", vec![("n", s(format!("{i:?}").to_lowercase()))]),
                RigidTy::Float(i) => o("float", vec![("n", s(format!("{i:?}").to_lowercase()))]),
                RigidTy::Str => o("str", vec![]),
                RigidTy::Never => o("never", vec![]),
                RigidTy::Array(e, c) => {
                    let e = self.ty(e);
                    let c = self.tyconst(&c);
                    o("array", vec![("t", n(e)), ("len", c)])
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    o("slice", vec![("t", n(e))])
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    o("ptr", vec![("t", n(e)), ("mut", J::B(m == Mutability::Mut))])
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    o("ref", vec![("t", n(e)), ("mut", J::B(m == Mutability::Mut))])
                }
                RigidTy::Tuple(ts) => {
                    let v = ts.iter().map(|t| n(self.ty(*t))).collect();
                    o("tuple", vec![("ts", J::A(v))])
                }
                RigidTy::FnDef(d, a) => {
                    let name = d.name().to_string();
                    let ja = self.args(&a);
                    let inst = match Instance::resolve(d, &a) {
                        Ok(i) => n(self.inst(i)),
                        Err(_) => J::Null,
                    };
                    o("fndef", vec![("name", s(name)), ("args", ja), ("inst", inst)])
                }
                RigidTy::Closure(d, a) => {
                    let name = d.name().to_string();
                    let k = a.0.len();
                    let mut kind = "Fn";
                    let mut ck = ClosureKind::Fn;
                    if let GenericArgKind::Type(t) = &a.0[k - 3] {
                        match t.kind() {
                            TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => {
                                kind = "FnMut";
                                ck = ClosureKind::FnMut
                            }
                            TyKind::RigidTy(RigidTy::Int(IntTy::I32)) => {
                                kind = "FnOnce";
                                ck = ClosureKind::FnOnce
                            }
                            _ => {}
                        }
                    }
                    let ups = if let GenericArgKind::Type(t) = &a.0[k - 1] {
                        n(self.ty(*t))
                    } else {
                        J::Null
                    };
                    let inst = match Instance::resolve_closure(d, &a, ck) {
                        Ok(i) => n(self.inst(i)),
                        Err(_) => J::Null,
                    };
                    o(
                        "closure",
                        vec![("name", s(name)), ("kind", s(kind)), ("upvars", ups), ("inst", inst)],
                    )
                }
                RigidTy::Adt(d, a) => {
                    let name = d.name().to_string();
                    let ja = self.args(&a);
                    let kind = format!("{:?}", d.kind());
                    let mut vs = vec![];
                    for v in d.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = self.ty(f.ty_with_args(&a));
                            fs.push(J::A(vec![s(f.name.to_string()), n(ft)]));
                        }
                        let discr = if kind == "Enum" {
                            J::I(d.discriminant_for_variant(v.idx()).val as i128)
                        } else {
                            J::I(0)
                        };
                        vs.push(J::A(vec![s(v.name().to_string()), discr, J::A(fs)]));
                    }
                    o(
                        "adt",
                        vec![
                            ("name", s(name)),
                            ("kr", s(d.krate().name.to_string())),
                            ("args", ja),
                            ("kind", s(kind)),
                            ("variants", J::A(vs)),
                        ],
                    )
                }
                RigidTy::Dynamic(..) => o("dyn", vec![("s", s(format!("{t}")))]),
                RigidTy::FnPtr(..) => o("fnptr", vec![]),
                _ => o("other", vec![("s", s(format!("{t}")))]),
            },
            _ => o("other", vec![("s", s(format!("{t}")))]),
        }
    }

    // ---- constants -------------------------------------------------------

    fn bytes_at(a: &Allocation, off: usize, len: usize) -> Option<Vec<u8>> {
        if off + len > a.bytes.len() {
            return None;
        }
        a.bytes[off..off + len].iter().map(|b| *b).collect()
    }

    fn uint_at(a: &Allocation, off: usize, len: usize) -> Option<u128> {
        let b = Self::bytes_at(a, off, len)?;
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() {
            v |= (*x as u128) << (8 * i);
        }
        Some(v)
    }

    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }

    fn opaque_const(&self, t: Ty) -> J {
        tag("opaque", vec![s(format!("{t}"))])
    }

    fn decode_ptr(&mut self, t: Ty, pointee: Ty, a: &Allocation, off: usize) -> J {
        let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
        let Some(id) = prov else {
            return match Self::uint_at(a, off, 8) {
                Some(v) => tag("addr", vec![J::I(v as i128)]),
                None => self.opaque_const(t),
            };
        };
        let base = Self::uint_at(a, off, 8).unwrap_or(0) as usize;
        match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(m) => match pointee.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let len = Self::uint_at(a, off + 8, 8).unwrap_or(0) as usize;
                    match Self::bytes_at(&m, base, len) {
                        Some(b) => tag("refstr", vec![s(Self::hex(&b))]),
                        None => self.opaque_const(t),
                    }
                }
                TyKind::RigidTy(RigidTy::Slice(e)) => {
                    let len = Self::uint_at(a, off + 8, 8).unwrap_or(0) as usize;
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let mut v = vec![];
                    for i in 0..len.min(8192) {
                        v.push(self.decode(e, &m, base + i * es));
                    }
                    tag("refslice", vec![J::A(v)])
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => self.opaque_const(t),
                _ => {
                    let v = self.decode(pointee, &m, base);
                    tag("ref", vec![v])
                }
            },
            GlobalAlloc::Function(i) => tag("fn", vec![n(self.inst(i))]),
            GlobalAlloc::Static(d) => {
                let name = d.name().to_string();
                tag("refstatic", vec![s(name)])
            }
            _ => self.opaque_const(t),
        }
    }

    fn decode(&mut self, t: Ty, a: &Allocation, off: usize) -> J {
        self.depth += 1;
        let r = if self.depth > 24 { self.opaque_const(t) } else { self.decode_(t, a, off) };
        self.depth -= 1;
        r
    }

    fn decode_(&mut self, t: Ty, a: &Allocation, off: usize) -> J {
        let Ok(layout) = t.layout() else { return self.opaque_const(t) };
        let shape = layout.shape();
        let size = shape.size.bytes();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match Self::uint_at(a, off, 1) {
                    Some(v) => J::B(v != 0),
                    None => self.opaque_const(t),
                },
                RigidTy::Char | RigidTy::Uint(_) => match Self::uint_at(a, off, size) {
                    Some(v) => tag("i", vec![J::Big(v)]),
                    None => self.opaque_const(t),
                },
                RigidTy::Int(_) => match Self::uint_at(a, off, size) {
                    Some(v) => {
                        let sh = 128 - 8 * size as u32;
                        let v = ((v << sh) as i128) >> sh;
                        tag("i", vec![J::I(v)])
                    }
                    None => self.opaque_const(t),
                },
                RigidTy::Float(_) => match Self::uint_at(a, off, size) {
                    Some(v) => tag("f", vec![J::Big(v), n(size)]),
                    None => self.opaque_const(t),
                },
                RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => self.decode_ptr(t, p, a, off),
                RigidTy::FnPtr(_) => self.decode_ptr(t, t, a, off),
                RigidTy::Array(e, c) => {
                    let cnt = c.eval_target_usize().unwrap_or(0) as usize;
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let mut v = vec![];
                    for i in 0..cnt.min(8192) {
                        v.push(self.decode(e, a, off + i * es));
                    }
                    tag("arr", vec![J::A(v)])
                }
                RigidTy::Tuple(ts) => {
                    let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                        if ts.is_empty() {
                            return tag("agg", vec![n(0), J::A(vec![])]);
                        }
                        return self.opaque_const(t);
                    };
                    let mut v = vec![];
                    for (i, t) in ts.iter().enumerate() {
                        v.push(self.decode(*t, a, off + offsets[i].bytes()));
                    }
                    tag("agg", vec![n(0), J::A(v)])
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => tag("zst", vec![]),
                RigidTy::Adt(d, args) => {
                    if format!("{:?}", d.kind()) == "Union" {
                        return self.opaque_const(t);
                    }
                    let (vi, offsets): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Single { index } => {
                            let o = match &shape.fields {
                                FieldsShape::Arbitrary { offsets } => {
                                    offsets.iter().map(|o| o.bytes()).collect()
                                }
                                _ => vec![],
                            };
                            (index.to_index(), o)
                        }
                        VariantsShape::Multiple { tag: tg, tag_encoding, tag_field, variants } => {
                            let toff = match &shape.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => 0,
                            };
                            let tsz = tag_size(tg);
                            let Some(tv) = Self::uint_at(a, off + toff, tsz) else {
                                return self.opaque_const(t);
                            };
                            let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut r = 0;
                                    for v in d.variants() {
                                        let dv = d.discriminant_for_variant(v.idx()).val;
                                        let m = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        if dv & m == tv {
                                            r = v.idx().to_index();
                                        }
                                    }
                                    r
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let start = niche_variants.start().to_index();
                                    let end = niche_variants.end().to_index();
                                    let m = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & m;
                                    if !is_ptr && rel <= (end - start) as u128 {
                                        start + rel as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            };
                            let o = variants[vi].offsets.iter().map(|o| o.bytes()).collect();
                            (vi, o)
                        }
                        VariantsShape::Empty => return self.opaque_const(t),
                    };
                    let vs = d.variants();
                    let fields = vs[vi].fields();
                    let mut v = vec![];
                    for (i, f) in fields.iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        if i >= offsets.len() {
                            return self.opaque_const(t);
                        }
                        v.push(self.decode(ft, a, off + offsets[i]));
                    }
                    tag("agg", vec![n(vi), J::A(v)])
                }
                _ => self.opaque_const(t),
            },
            _ => self.opaque_const(t),
        }
    }

    fn constant(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(t, a, 0),
            ConstantKind::ZeroSized => tag("zst", vec![]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(*t, a, 0),
                TyConstKind::ZSTValue(_) => tag("zst", vec![]),
                k => tag("opaque", vec![s(format!("{k:?}"))]),
            },
            k => tag("opaque", vec![s(format!("{k:?}").chars().take(80).collect::<String>())]),
        };
        tag("k", vec![n(tid), v])
    }

    // ---- bodies ----------------------------------------------------------

    fn place(&mut self, p: &Place) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    tag("f", vec![n(*i), n(t)])
                }
                ProjectionElem::Index(l) => tag("i", vec![n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => tag(
                    "ci",
                    vec![J::I(*offset as i128), J::I(*min_length as i128), J::B(*from_end)],
                ),
                ProjectionElem::Subslice { from, to, from_end } => {
                    tag("ss", vec![J::I(*from as i128), J::I(*to as i128), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => tag("d", vec![n(v.to_index())]),
                _ => s("?"),
            });
        }
        J::A(vec![n(p.local), J::A(pr)])
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => tag("c", vec![self.place(p)]),
            Operand::Move(p) => tag("m", vec![self.place(p)]),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => tag("rtc", vec![]),
        }
    }

    fn operands(&mut self, v: &[Operand]) -> J {
        J::A(v.iter().map(|o| self.operand(o)).collect())
    }

    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(o, ..) => tag("use", vec![self.operand(o)]),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                tag("ref", vec![J::B(m), self.place(p)])
            }
            Rvalue::AddressOf(k, p) => {
                let m = format!("{k:?}").contains("Mut");
                tag("ref", vec![J::B(m), self.place(p)])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = self.operands(ops);
                let kk = match k {
                    AggregateKind::Array(t) => tag("array", vec![n(self.ty(*t))]),
                    AggregateKind::Tuple => tag("tuple", vec![]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        let t = self.ty(t);
                        tag(
                            "adt",
                            vec![n(t), n(v.to_index()), f.map(|f| n(f)).unwrap_or(J::Null)],
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        tag("closure", vec![n(self.ty(t))])
                    }
                    AggregateKind::RawPtr(..) => tag("rawptr", vec![]),
                    _ => tag("other", vec![]),
                };
                tag("agg", vec![kk, ops])
            }
            Rvalue::BinaryOp(op, a, b) => {
                tag("bin", vec![s(format!("{op:?}")), self.operand(a), self.operand(b)])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                tag("cbin", vec![s(format!("{op:?}")), self.operand(a), self.operand(b)])
            }
            Rvalue::UnaryOp(op, a) => tag("un", vec![s(format!("{op:?}")), self.operand(a)]),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                tag("cast", vec![s(format!("{k:?}")), self.operand(o), n(t)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                tag("use", vec![tag("c", vec![p])])
            }
            Rvalue::Discriminant(p) => tag("discr", vec![self.place(p)]),
            Rvalue::Len(p) => tag("len", vec![self.place(p)]),
            Rvalue::Repeat(o, c) => {
                let c = self.tyconst(c);
                tag("repeat", vec![self.operand(o), c])
            }
            Rvalue::ThreadLocalRef(i) => tag("tls", vec![s(i.name().to_string())]),
            other => tag("other", vec![s(format!("{other:?}").chars().take(60).collect::<String>())]),
        }
    }

    /// make sure `<T as Iterator>::next` is part of the dump for an iterator type
    fn want_next(&mut self, t: Ty) {
        if self.next_of.contains_key(&t) {
            return;
        }
        use rustc_middle::ty as rty;
        let tcx = self.tcx;
        let Some(next) = tcx.lang_items().next_fn() else { return };
        let it = rustc_public::rustc_internal::internal(tcx, t);
        let tr = tcx.parent(next);
        let env = rty::TypingEnv::fully_monomorphized();
        let args = tcx.mk_args(&[it.into()]);
        // only for types that do implement Iterator
        use rustc_middle::ty::TypeVisitableExt;
        if it.has_escaping_bound_vars() {
            return;
        }
        let tref = rty::TraitRef::new_from_args(tcx, tr, args);
        let ok = tcx
            .codegen_select_candidate(env.as_query_input(tref))
            .is_ok();
        if !ok {
            return;
        }
        if let Ok(Some(i)) = rty::Instance::try_resolve(tcx, env, next, args) {
            let i = rustc_public::rustc_internal::stable(i);
            let id = self.inst(i);
            self.next_of.insert(t, id);
            self.ty(t);
        }
        if let TyKind::RigidTy(RigidTy::Adt(_, a)) = t.kind() {
            for x in a.0.iter() {
                if let GenericArgKind::Type(t) = x {
                    if matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Ref(..))) {
                        self.want_next(*t);
                    }
                }
            }
        }
        if let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = t.kind() {
            self.want_next(t);
        }
    }

    fn callee(&mut self, f: &Operand, locals: &[LocalDecl]) -> J {
        let Ok(t) = f.ty(locals) else { return J::Null };
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            let name = d.name().to_string();
            if name.starts_with("std::iter::") || name.starts_with("core::iter::") || name.contains("IntoIterator") {
                if let Some(GenericArgKind::Type(t)) = a.0.first() {
                    self.want_next(*t);
                }
            }
            let ja = self.args(&a);
            let inst = match Instance::resolve(d, &a) {
                Ok(i) => n(self.inst(i)),
                Err(_) => J::Null,
            };
            tag("fn", vec![s(name), ja, inst])
        } else {
            tag("ind", vec![self.operand(f)])
        }
    }

    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| n(self.ty(l.ty))).collect();
        let names: Vec<J> = b
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                    Some(J::A(vec![s(v.name.to_string()), n(p.local)]))
                }
                _ => None,
            })
            .collect();
        let mut blocks = vec![];
        for bb in b.blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                let sp = x.source_info.span;
                let j = match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let sp = self.span(sp);
                        tag("=", vec![self.place(p), self.rvalue(r), sp])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let sp = self.span(sp);
                        tag("sd", vec![self.place(place), n(variant_index.to_index()), sp])
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => tag("cno", vec![]),
                    _ => continue,
                };
                st.push(j);
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => tag("goto", vec![n(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<J> =
                        targets.branches().map(|(v, b)| J::A(vec![J::Big(v), n(b)])).collect();
                    let t = discr.ty(b.locals()).map(|t| n(self.ty(t))).unwrap_or(J::Null);
                    tag("switch", vec![self.operand(discr), J::A(br), n(targets.otherwise()), t])
                }
                TerminatorKind::Resume | TerminatorKind::Abort => tag("unwind", vec![]),
                TerminatorKind::Return => tag("ret", vec![]),
                TerminatorKind::Unreachable => tag("unreach", vec![]),
                TerminatorKind::Drop { place, target, .. } => {
                    tag("drop", vec![self.place(place), n(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = self.callee(func, b.locals());
                    let at: Vec<J> = args
                        .iter()
                        .map(|a| a.ty(b.locals()).map(|t| n(self.ty(t))).unwrap_or(J::Null))
                        .collect();
                    tag(
                        "call",
                        vec![
                            c,
                            self.operands(args),
                            self.place(destination),
                            target.map(|t| n(t)).unwrap_or(J::Null),
                            J::A(at),
                        ],
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    let m = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    let aux = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            J::A(vec![self.operand(len), self.operand(index)])
                        }
                        _ => J::A(vec![]),
                    };
                    tag("assert", vec![self.operand(cond), J::B(*expected), s(m), n(*target), aux])
                }
                TerminatorKind::InlineAsm { .. } => tag("asm", vec![]),
            };
            blocks.push(J::A(vec![J::A(st), t, sp]));
        }
        J::O(vec![
            ("nargs".into(), n(b.arg_locals().len())),
            ("spread".into(), b.spread_arg().map(|l| n(l)).unwrap_or(J::Null)),
            ("locals".into(), J::A(locals)),
            ("names".into(), J::A(names)),
            ("blocks".into(), J::A(blocks)),
        ])
    }

    fn inst_json(&mut self, id: usize) -> J {
        let i = self.insts[id];
        let name = i.name().to_string();
        let item = CrateItem::try_from(i).ok();
        let def = i.def.def_id();
        let path = def.name().to_string();
        let krate = item.map(|c| c.krate().name.to_string()).unwrap_or_default();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let mut o: Vec<(String, J)> = vec![
            ("id".into(), n(id)),
            ("name".into(), s(name)),
            ("path".into(), s(path.clone())),
            ("krate".into(), s(krate.clone())),
            ("kind".into(), s(kind)),
        ];
        if let Some(nm) = i.intrinsic_name() {
            o.push(("intrinsic".into(), s(nm.to_string())));
        }
        let did = rustc_public::rustc_internal::internal(self.tcx, def);
        if let rustc_hir::def::DefKind::Ctor(of, _) = self.tcx.def_kind(did) {
            // a constructor used as a function
            let v = match of {
                rustc_hir::def::CtorOf::Struct => J::Null,
                rustc_hir::def::CtorOf::Variant => {
                    let var = self.tcx.parent(did);
                    let adt = self.tcx.adt_def(self.tcx.parent(var));
                    n(adt.variant_index_with_id(var).as_usize())
                }
            };
            o.push(("ctor".into(), v));
        }
        let a = self.args(&i.args());
        o.push(("args".into(), a));
        let sp = self.span(def.span());
        o.push(("span".into(), sp));
        let want = match i.kind {
            InstanceKind::Item => wanted(&krate, &path),
            InstanceKind::Shim => !path.contains("drop_in_place"),
            InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => false,
        };
        if want && (i.kind == InstanceKind::Shim || i.has_body()) {
            if let Some(b) = i.body() {
                let b = self.body(&b);
                o.push(("body".into(), b));
            }
        }
        J::O(o)
    }
}

fn tag_size(tg: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match tg {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Float { length } => {
            if format!("{length:?}").contains("32") {
                4
            } else {
                8
            }
        }
        Primitive::Pointer(_) => 8,
    }
}

fn analyse(tcx: rustc_middle::ty::TyCtxt<'_>, out: &str) -> ControlFlow<(), ()> {
    let mut cx = Cx {
        tcx,
        types: vec![],
        ty_ids: HashMap::new(),
        insts: vec![],
        inst_ids: HashMap::new(),
        queue: VecDeque::new(),
        next_of: HashMap::new(),
        files: vec![],
        file_ids: HashMap::new(),
        statics: vec![],
        depth: 0,
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() {
                    continue;
                }
                if let Ok(i) = Instance::try_from(it) {
                    let id = cx.inst(i);
                    roots.push(n(id));
                }
            }
            ItemKind::Static => {
                let name = it.name().to_string();
                let t = cx.ty(it.ty());
                let mutable = rustc_public::rustc_internal::internal(tcx, it.def_id());
                let m = tcx.is_mutable_static(mutable);
                let sp = cx.span(it.span());
                cx.statics.push(J::A(vec![s(name), n(t), J::B(m), sp]));
            }
            _ => {}
        }
    }
    let mut fns = vec![];
    while let Some(id) = cx.queue.pop_front() {
        let j = cx.inst_json(id);
        fns.push((id, j));
    }
    fns.sort_by_key(|x| x.0);
    let next: Vec<J> =
        cx.next_of.iter().map(|(t, i)| (cx.ty_ids[t], *i)).map(|(a, b)| J::A(vec![n(a), n(b)])).collect();
    let unsafe_fns = {
        // bodies (by def path) that contain user-written unsafe blocks are found from THIR-less
        // HIR: any block marked unsafe by the user
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'a> {
            found: Vec<(String, usize)>,
            tcx: rustc_middle::ty::TyCtxt<'a>,
        }
        impl<'a> Visitor<'a> for V<'a> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
                self.tcx
            }
            fn visit_block(&mut self, b: &'a rustc_hir::Block<'a>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    if !b.span.from_expansion() {
                        let lo = self.tcx.sess.source_map().lookup_char_pos(b.span.lo());
                        self.found.push((format!("{:?}", lo.file.name), lo.line));
                    }
                }
                intravisit::walk_block(self, b);
            }
        }
        let mut v = V { found: vec![], tcx };
        tcx.hir_visit_all_item_likes_in_crate(&mut v);
        // hand-written impls of unsafe traits (Send, Sync)
        for (t, impls) in tcx.all_local_trait_impls(()) {
            if tcx.trait_def(*t).safety.is_unsafe() {
                for i in impls {
                    let sp = tcx.def_span(*i);
                    if !sp.from_expansion() {
                        let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
                        v.found.push((format!("{:?}", lo.file.name), lo.line));
                    }
                }
            }
        }
        J::A(v.found.into_iter().map(|(f, l)| J::A(vec![s(f), n(l)])).collect())
    };
    let j = J::O(vec![
        ("crate".into(), s(rustc_public::local_crate().name.to_string())),
        ("roots".into(), J::A(roots)),
        ("types".into(), J::A(std::mem::take(&mut cx.types))),
        ("fns".into(), J::A(fns.into_iter().map(|x| x.1).collect())),
        ("next".into(), J::A(next)),
        ("files".into(), J::A(cx.files.iter().map(|f| s(f.clone())).collect())),
        ("statics".into(), J::A(std::mem::take(&mut cx.statics))),
        ("unsafe".into(), unsafe_fns),
    ]);
    let mut text = String::new();
    j.write(&mut text);
    std::fs::write(out, text).expect("cannot write dump");
    ControlFlow::Continue(())
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc
    let mut args: Vec<String> = argv[1..].to_vec();
    let crate_name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
    let ours = matches!(pkg.as_str(), "poppy-filters" | "poppy-py" | "harness")
        && crate_name.as_deref().map(|c| c != "build_script_build" && c != "___").unwrap_or(false);
    if !ours {
        let st = Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        exit(st.code().unwrap_or(101));
    }
    for a in [
        "-Zalways-encode-mir",
        "-Zmir-opt-level=0",
        "-Zinline-mir=no",
        "-Cdebug-assertions=off",
        "-Coverflow-checks=on",
        "-Awarnings",
    ] {
        args.push(a.to_string());
    }
    let dir = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let is_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let out = format!("{dir}/{pkg}.{}.json", if is_bin { "bin" } else { "lib" });
    let r = rustc_public::run_with_tcx!(&args, |tcx| analyse(tcx, &out));
    match r {
        Ok(()) => exit(0),
        Err(e) => {
            if !matches!(e, rustc_public::CompilerError::Skipped) {
                eprintln!("mirdump: {e:?}");
                exit(1)
            }
            exit(0)
        }
    }
}
