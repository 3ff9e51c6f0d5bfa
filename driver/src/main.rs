// MIR extractor for md-recover: dumps every function body of the workspace crate (as generic
// roots), every callee body reachable through resolved calls whose MIR is available, the types
// they mention and their evaluated constants, as JSON for the Python analysers in /verif/sa.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key<'tcx> {
    inst: Instance<'tcx>,
    env: TypingEnv<'tcx>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<(Ty<'tcx>, TypingEnv<'tcx>), usize>,
    type_j: Vec<J>,
    fns: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<(usize, Key<'tcx>, bool)>,
    fn_j: Vec<J>,
}

fn follow_crate(name: &str) -> bool {
    matches!(
        name,
        "core" | "alloc" | "std" | "binary_layout" | "byteorder" | "num_enum" | "bitflags" | "derive_more" | "itertools" | "either" | "num_integer" | "uuid" | "crc" | "md_recover"
            | "iocuddle" | "chrono" | "num_traits"
    )
}

fn follow_path(p: &str) -> bool {
    let bad = [
        "fmt::", "hashbrown", "array::iter", "std::array::IntoIter", "option::Item", "option::IntoIter", "bitflags::parser", "collections::hash", "core::hash", "std::hash", "std::sys", "core::str::", "alloc::str", "std::thread", "std::backtrace", "std::panicking", "core::panicking",
        "alloc::alloc", "alloc::raw_vec", "std::io::stdio", "std::sync", "core::unicode", "alloc::string", "std::fs", "core::slice::sort", "std::path", "std::env", "core::ptr::drop_in_place", "core::sync",
    ];
    !bad.iter().any(|b| p.contains(b))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        s(format!("{}:{}", f, loc.line))
    }

    fn fn_id(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        let env = if inst.args.has_param() || inst.args.has_aliases() { env } else { TypingEnv::fully_monomorphized() };
        let k = Key { inst, env };
        if let Some(&i) = self.fns.get(&k) {
            return i;
        }
        let i = self.fn_j.len();
        self.fns.insert(k, i);
        self.fn_j.push(J::Null);
        self.queue.push_back((i, k, false));
        i
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut t = self.tcx.erase_and_anonymize_regions(t);
        while let ty::Pat(b, _) = t.kind() {
            t = *b;
        }
        let env2 = if t.has_param() || t.has_aliases() { env } else { TypingEnv::fully_monomorphized() };
        if let Some(&i) = self.types.get(&(t, env2)) {
            return n(i);
        }
        let i = self.type_j.len();
        self.types.insert((t, env2), i);
        self.type_j.push(J::Null);
        let mut j = self.ty_desc(t, env2);
        if matches!(t.kind(), ty::Adt(..) | ty::Ref(..) | ty::Array(..)) {
            let ms = self.type_methods(t, env2);
            if let J::O(o) = &mut j {
                o.extend(ms);
            }
        }
        self.type_j[i] = j;
        n(i)
    }

    fn implements(&self, tr: DefId, args: Vec<ty::GenericArg<'tcx>>, env: TypingEnv<'tcx>) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (infcx, pe) = self.tcx.infer_ctxt().build_with_typing_env(env);
        infcx.type_implements_trait(tr, args, pe).must_apply_modulo_regions()
    }

    /// resolved trait methods the analysis needs on types it only meets as generic arguments
    fn type_methods(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o = vec![];
        if t.has_escaping_bound_vars() {
            return o;
        }
        let li = tcx.lang_items();
        // bounded: deeply nested adaptor towers are never needed and would not terminate
        let adt = match t.kind() {
            ty::Ref(_, x, _) => match x.kind() {
                ty::Adt(a, _) => {
                    let p = self.path(a.did());
                    p.starts_with("std::vec::Vec") || p.starts_with("std::collections")
                }
                _ => false,
            },
            ty::Adt(a, _) => {
                let p = self.path(a.did());
                !(p.starts_with("std::option") || p.starts_with("std::result") || p.starts_with("std::array") || p.starts_with("std::slice"))
            }
            _ => false,
        };
        if !adt || t.walk().count() > 60 {
            return o;
        }
        let mut is_iter = false;
        for (nm, f) in [("next", li.next_fn()), ("into_iter", li.into_iter_fn())] {
            if let Some(f) = f {
                let tr = tcx.parent(f);
                if nm == "into_iter" && is_iter {
                    continue;
                }
                if self.implements(tr, vec![t.into()], env) {
                    is_iter = true;
                    let args = tcx.mk_args(&[t.into()]);
                    let (_, j) = self.callee(f, args, env);
                    o.push((nm, j));
                }
            }
        }
        let local = t.ty_adt_def().map_or(false, |a| a.did().is_local());
        if let Some(tr) = li.eq_trait() {
            if local && self.implements(tr, vec![t.into(), t.into()], env) {
                let f = tcx.associated_items(tr).in_definition_order().next().unwrap().def_id;
                let args = tcx.mk_args(&[t.into(), t.into()]);
                let (_, j) = self.callee(f, args, env);
                o.push(("eq", j));
            }
        }
        o
    }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, env: TypingEnv<'tcx>, t: T) -> T {
        match self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t.clone())) {
            Ok(x) => x,
            Err(_) => t,
        }
    }

    fn ty_desc(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let name = with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("name", s(name))];
        if !t.has_param() && !t.has_aliases() {
            if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                if l.is_sized() {
                    o.push(("size", J::I(l.size.bytes() as i128)));
                }
            }
        }
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) => {
                o.push(("k", s("int")));
                o.push(("bits", J::I(if matches!(t.kind(), ty::Int(ty::IntTy::Isize)) { 64 } else { t.primitive_size(tcx).bits() as i128 })));
            }
            ty::Uint(_) => {
                o.push(("k", s("uint")));
                o.push(("bits", J::I(if matches!(t.kind(), ty::Uint(ty::UintTy::Usize)) { 64 } else { t.primitive_size(tcx).bits() as i128 })));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Array(e, c) => {
                o.push(("k", s("array")));
                let e = self.ty(*e, env);
                o.push(("elem", e));
                o.push(("len", match c.try_to_target_usize(tcx) { Some(l) => J::I(l as i128), None => J::Null }));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(*e, env);
                o.push(("elem", e));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let e = self.ty(*e, env);
                o.push(("elem", e));
            }
            ty::RawPtr(e, _) => {
                o.push(("k", s("ptr")));
                let e = self.ty(*e, env);
                o.push(("elem", e));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x, env)).collect();
                o.push(("fields", J::A(v)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("param", s(p.name.to_string())));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.skip_binder();
                let (p, id) = self.callee(*d, args, env);
                o.push(("path", s(p)));
                o.push(("fn", id));
                let a = args.types().map(|x| self.ty(x, env)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x, env)).collect();
                o.push(("fields", J::A(ups)));
                let names: Vec<J> = if d.is_local() { tcx.closure_captures(d.expect_local()).iter().map(|c| s(c.to_symbol().to_string())).collect() } else { vec![] };
                o.push(("names", J::A(names)));
                let kind = args.as_closure().kind_ty().to_opt_closure_kind();
                o.push(("ckind", s(format!("{:?}", kind))));
                let inst = Instance { def: InstanceKind::Item(*d), args };
                let id = self.fn_id(inst, env);
                o.push(("fn", n(id)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("adt", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let a = args.types().map(|x| self.ty(x, env)).collect();
                o.push(("args", J::A(a)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { J::I(def.discriminant_for_variant(tcx, vi).val as i128) } else { J::I(0) };
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip();
                        let ft = self.norm(env, ft);
                        let ft = self.ty(ft, env);
                        fs.push(J::A(vec![s(f.name.to_string()), ft]));
                    }
                    vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", discr), ("fields", J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }

    // resolved callee: (path, fn id or null)
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> (String, J) {
        let tcx = self.tcx;
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            return (self.path(d), J::Null); // constructors
        }
        let args = self.norm(env, args);
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => {
                let id = self.fn_id(i, env);
                (self.path(d), n(id))
            }
            _ => (self.path(d), J::Null),
        }
    }

    // ---------------------------------------------------------------- constants
    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => J::O(vec![("v", J::I(bits as i128)), ("k", s("bool"))]),
                    ty::Int(_) => {
                        let sz = i.size().bits();
                        let v = if sz == 128 { bits as i128 } else { ((bits << (128 - sz)) as i128) >> (128 - sz) };
                        J::O(vec![("k", s("int")), ("v", J::I(v))])
                    }
                    ty::Uint(_) | ty::Char => J::O(vec![("k", s("int")), ("v", if bits > i128::MAX as u128 { J::S(bits.to_string()) } else { J::I(bits as i128) })]),
                    _ => J::O(vec![("k", s("bits")), ("v", J::I(bits as i128))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                self.ptr_const(prov.alloc_id(), off, t, env, None, depth)
            }
        }
    }

    fn ptr_const(&mut self, id: rustc_middle::mir::interpret::AllocId, off: Size, t: Ty<'tcx>, env: TypingEnv<'tcx>, meta: Option<u64>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::O(vec![("k", s("deep"))]);
        }
        match tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => {
                let f = self.fn_id(instance, env);
                J::O(vec![("k", s("fnptr")), ("fn", n(f))])
            }
            GlobalAlloc::Static(d) => J::O(vec![("k", s("static")), ("path", s(self.path(d))), ("id", s(format!("{:?}", d)))]),
            GlobalAlloc::VTable(..) | GlobalAlloc::TypeId { .. } => J::O(vec![("k", s("vtable"))]),
            GlobalAlloc::Memory(a) => {
                let inner = match t.kind() {
                    ty::Ref(_, e, _) | ty::RawPtr(e, _) => *e,
                    _ => return J::O(vec![("k", s("opaqueptr"))]),
                };
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let elem = match inner.kind() { ty::Slice(e) => *e, _ => tcx.types.u8 };
                        let len = meta.unwrap_or(0);
                        let mut v = vec![];
                        if let Ok(l) = tcx.layout_of(env.as_query_input(elem)) {
                            for i in 0..len {
                                v.push(self.read(a.inner(), off + l.size * i, l, env, depth + 1));
                            }
                        }
                        let st = if matches!(inner.kind(), ty::Str) { "str" } else { "slice" };
                        J::O(vec![("k", s("refslice")), ("st", s(st)), ("elems", J::A(v))])
                    }
                    _ => match tcx.layout_of(env.as_query_input(inner)) {
                        Ok(l) if l.is_sized() => {
                            let v = self.read(a.inner(), off, l, env, depth + 1);
                            let it = self.ty(inner, env);
                            J::O(vec![("k", s("ref")), ("ty", it), ("to", v)])
                        }
                        _ => J::O(vec![("k", s("opaqueptr"))]),
                    },
                }
            }
        }
    }

    fn read(&mut self, a: &rustc_middle::mir::interpret::Allocation, off: Size, l: TyAndLayout<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let cx = ty::layout::LayoutCx::new(tcx, env);
        if depth > 12 {
            return J::O(vec![("k", s("deep"))]);
        }
        let t = l.ty;
        if let ty::Pat(base, _) = t.kind() {
            if let Ok(bl) = tcx.layout_of(env.as_query_input(*base)) {
                return self.read(a, off, bl, env, depth + 1);
            }
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::FnPtr(..) | ty::Float(_) => match a.read_scalar(&tcx, AllocRange { start: off, size: l.size }, false) {
                Ok(x) => self.scalar(x, t, env, depth),
                Err(_) => match a.read_scalar(&tcx, AllocRange { start: off, size: l.size }, true) {
                    Ok(x) => self.scalar(x, t, env, depth),
                    Err(_) => J::O(vec![("k", s("uninit"))]),
                },
            },
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let psz = tcx.data_layout.pointer_size();
                let p = a.read_scalar(&tcx, AllocRange { start: off, size: psz }, true);
                let meta = if e.is_str() || e.is_slice() {
                    match a.read_scalar(&tcx, AllocRange { start: off + psz, size: psz }, false) {
                        Ok(Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64),
                        _ => None,
                    }
                } else {
                    None
                };
                match p {
                    Ok(Scalar::Ptr(p, _)) => {
                        let (prov, o) = p.into_raw_parts();
                        self.ptr_const(prov.alloc_id(), o, t, env, meta, depth)
                    }
                    Ok(x) => self.scalar(x, tcx.types.usize, env, depth),
                    Err(_) => J::O(vec![("k", s("uninit"))]),
                }
            }
            ty::Array(e, c) => {
                let len = c.try_to_target_usize(tcx).unwrap_or(0);
                let mut v = vec![];
                if let Ok(el) = tcx.layout_of(env.as_query_input(*e)) {
                    for i in 0..len {
                        v.push(self.read(a, off + el.size * i, el, env, depth + 1));
                    }
                }
                J::O(vec![("k", s("array")), ("elems", J::A(v))])
            }
            ty::Tuple(_) | ty::Closure(..) => {
                let mut v = vec![];
                for i in 0..l.fields.count() {
                    let fl = l.field(&cx, i);
                    v.push(self.read(a, off + l.fields.offset(i), fl, env, depth + 1));
                }
                J::O(vec![("k", s("agg")), ("variant", J::I(0)), ("fields", J::A(v))])
            }
            ty::Adt(def, _) if !def.is_union() => {
                let vi = match &l.variants {
                    Variants::Empty => return J::O(vec![("k", s("uninit"))]),
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let toff = off + l.fields.offset(tag_field.as_usize());
                        let tsz = tag.size(&tcx);
                        let rs = a.read_scalar(&tcx, AllocRange { start: toff, size: tsz }, matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_)));
                        match (rs, tag_encoding) {
                            (Ok(Scalar::Int(i)), TagEncoding::Direct) => {
                                let bits = i.to_bits(i.size());
                                let mut r = None;
                                for (v, d) in def.discriminants(tcx) {
                                    let m = if tsz.bits() == 128 { u128::MAX } else { (1u128 << tsz.bits()) - 1 };
                                    if d.val & m == bits {
                                        r = Some(v);
                                    }
                                }
                                match r {
                                    Some(v) => v,
                                    None => return J::O(vec![("k", s("badenum"))]),
                                }
                            }
                            (Ok(Scalar::Int(i)), TagEncoding::Niche { untagged_variant, niche_variants, niche_start }) => {
                                let bits = i.to_bits(i.size());
                                let m = if tsz.bits() == 128 { u128::MAX } else { (1u128 << tsz.bits()) - 1 };
                                let rel = bits.wrapping_sub(*niche_start) & m;
                                let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                if rel <= cnt {
                                    VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                } else {
                                    *untagged_variant
                                }
                            }
                            (Ok(Scalar::Ptr(..)), TagEncoding::Niche { untagged_variant, .. }) => *untagged_variant,
                            _ => return J::O(vec![("k", s("badenum"))]),
                        }
                    }
                };
                let vl = l.for_variant(&cx, vi);
                let mut v = vec![];
                for i in 0..vl.fields.count() {
                    let fl = vl.field(&cx, i);
                    v.push(self.read(a, off + vl.fields.offset(i), fl, env, depth + 1));
                }
                J::O(vec![("k", s("agg")), ("variant", n(vi.as_usize())), ("fields", J::A(v))])
            }
            _ => J::O(vec![("k", s("unk"))]),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t, env);
        let mut o: Vec<(&'static str, J)> = vec![("ty", tj)];
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push(("path", s(self.path(u.def))));
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push(("cty", s(format!("{:?}", ct))));
        }
        let val = if c.const_.has_param() && matches!(c.const_, Const::Ty(..)) { Err(()) } else { c.const_.eval(tcx, env, c.span).map_err(|_| ()) };
        match val {
            Ok(v) => {
                let j = match v {
                    ConstValue::ZeroSized => J::O(vec![("k", s("zst"))]),
                    ConstValue::Scalar(sc) => {
                        if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                            self.scalar_of(sc, l, env)
                        } else {
                            self.scalar(sc, t, env, 0)
                        }
                    }
                    ConstValue::Slice { alloc_id, meta } => self.ptr_const(alloc_id, Size::ZERO, t, env, Some(meta), 0),
                    ConstValue::Indirect { alloc_id, offset } => match (tcx.global_alloc(alloc_id), tcx.layout_of(env.as_query_input(t))) {
                        (GlobalAlloc::Memory(a), Ok(l)) => self.read(a.inner(), offset, l, env, 0),
                        _ => J::O(vec![("k", s("unk"))]),
                    },
                };
                o.push(("val", j));
            }
            Err(_) => {
                if let Const::Unevaluated(u, _) = c.const_ {
                    o.push(("uneval", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(u.def, u.args)))));
                    if let Some(p) = u.promoted {
                        // dump promoted body so that the analyser can interpret it
                        let body = &tcx.promoted_mir(u.def)[p];
                        let inst = Instance { def: InstanceKind::Item(u.def), args: u.args };
                        let b = self.body_j(body, inst, env);
                        o.push(("promoted", b));
                    }
                }
            }
        }
        J::O(o)
    }

    fn scalar_of(&mut self, sc: Scalar, l: TyAndLayout<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let cx = ty::layout::LayoutCx::new(tcx, env);
        if let ty::Pat(base, _) = l.ty.kind() {
            if let Ok(bl) = tcx.layout_of(env.as_query_input(*base)) {
                return self.scalar_of(sc, bl, env);
            }
        }
        match l.ty.kind() {
            ty::Adt(def, _) if def.is_struct() => {
                // newtype: find the non-ZST field
                let mut v = vec![];
                for i in 0..l.fields.count() {
                    let fl = l.field(&cx, i);
                    v.push(if fl.size == l.size { self.scalar_of(sc, fl, env) } else { J::O(vec![("k", s("zst"))]) });
                }
                J::O(vec![("k", s("agg")), ("variant", J::I(0)), ("fields", J::A(v))])
            }
            ty::Adt(def, _) if def.is_enum() => {
                if let (Scalar::Int(i), Variants::Multiple { tag, tag_encoding: TagEncoding::Direct, .. }) = (sc, &l.variants) {
                    let bits = i.to_bits(i.size());
                    let m = (1u128 << tag.size(&tcx).bits()) - 1;
                    for (v, d) in def.discriminants(tcx) {
                        if d.val & m == bits {
                            return J::O(vec![("k", s("agg")), ("variant", n(v.as_usize())), ("fields", J::A(vec![]))]);
                        }
                    }
                }
                if let (Scalar::Int(i), Variants::Multiple { tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, .. }) = (sc, &l.variants) {
                    let bits = i.to_bits(i.size());
                    let m = if i.size().bits() == 128 { u128::MAX } else { (1u128 << i.size().bits()) - 1 };
                    let rel = bits.wrapping_sub(*niche_start) & m;
                    let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                    if rel <= cnt {
                        return J::O(vec![("k", s("agg")), ("variant", n(niche_variants.start.as_usize() + rel as usize)), ("fields", J::A(vec![]))]);
                    }
                    let vl = l.for_variant(&cx, *untagged_variant);
                    let mut v = vec![];
                    for k in 0..vl.fields.count() {
                        let fl = vl.field(&cx, k);
                        v.push(if fl.size == l.size { self.scalar_of(sc, fl, env) } else { J::O(vec![("k", s("zst"))]) });
                    }
                    return J::O(vec![("k", s("agg")), ("variant", n(untagged_variant.as_usize())), ("fields", J::A(v))]);
                }
                if let Variants::Single { index } = &l.variants {
                    let vl = l.for_variant(&cx, *index);
                    let mut v = vec![];
                    for k in 0..vl.fields.count() {
                        let fl = vl.field(&cx, k);
                        v.push(if fl.size == l.size { self.scalar_of(sc, fl, env) } else { J::O(vec![("k", s("zst"))]) });
                    }
                    return J::O(vec![("k", s("agg")), ("variant", n(index.as_usize())), ("fields", J::A(v))]);
                }
                self.scalar(sc, l.ty, env, 0)
            }
            _ => self.scalar(sc, l.ty, env, 0),
        }
    }

    // ---------------------------------------------------------------- bodies
    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(env, t);
                    let t = self.ty(t, env);
                    J::A(vec![s("field"), n(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("index"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("cindex"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("subslice"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("downcast"), n(v.as_usize())]),
                _ => J::A(vec![s("cast")]),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p, env)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p, env)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.constant(c, env)]),
            Operand::RuntimeChecks(r) => J::A(vec![s("rtcheck"), s(format!("{:?}", r))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, c) => {
                let o = self.operand(o, env);
                let l = match c.try_to_target_usize(self.tcx) { Some(x) => J::I(x as i128), None => J::Null };
                J::A(vec![s("repeat"), o, l])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(p, env), s(match bk { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shared", _ => "fake" })]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p, env), s("raw")]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, env);
                let t = self.norm(env, *t);
                let t = self.ty(t, env);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, t])
            }
            Rvalue::BinaryOp(b, ops) => {
                let a = self.operand(&ops.0, env);
                let c = self.operand(&ops.1, env);
                J::A(vec![s("bin"), s(format!("{:?}", b)), a, c])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(o, env)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p, env)]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t, env); J::A(vec![s("array"), t]) }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.norm(env, t);
                        let t = self.ty(t, env);
                        J::A(vec![s("adt"), t, n(v.as_usize()), match f { Some(f) => n(FieldIdx::as_usize(*f)), None => J::Null }])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t, env);
                        J::A(vec![s("closure"), t])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                let v = ops.iter().map(|o| self.operand(o, env)).collect();
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p, env)])]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, env: TypingEnv<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let mut o: Vec<(&'static str, J)> = vec![("sp", sp)];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", n(target.as_usize())));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", s("switch")));
                let d = self.operand(discr, env);
                o.push(("d", d));
                let v = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), n(b.as_usize())])).collect();
                o.push(("t", J::A(v)));
                o.push(("else", n(targets.otherwise().as_usize())));
            }
            TerminatorKind::Return => o.push(("k", s("return"))),
            TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
            TerminatorKind::Drop { target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", n(target.as_usize())));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("k", s("call")));
                let mut info = (J::Null, J::Null, J::Null, J::Null);
                if let Operand::Constant(c) = func {
                    let ft = self.norm(env, c.const_.ty());
                    if let ty::FnDef(d, a) = ft.kind() {
                        let a = a.skip_binder();
                        let (p, id) = self.callee(*d, a, env);
                        let ta: Vec<J> = a.types().map(|x| self.ty(x, env)).collect();
                        let full = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(*d, a));
                        info = (s(p), id, J::A(ta), s(full));
                    }
                } else {
                    let f = self.operand(func, env);
                    o.push(("fop", f));
                }
                o.push(("path", info.0));
                o.push(("fn", info.1));
                o.push(("targs", info.2));
                o.push(("full", info.3));
                let a = args.iter().map(|x| self.operand(&x.node, env)).collect();
                o.push(("args", J::A(a)));
                let d = self.place(destination, env);
                o.push(("dest", d));
                o.push(("to", match target { Some(t) => n(t.as_usize()), None => J::Null }));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", s("assert")));
                let c = self.operand(cond, env);
                o.push(("cond", c));
                o.push(("exp", J::B(*expected)));
                let (mk, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, env), self.operand(index, env)]),
                    AssertKind::Overflow(b, x, y) => (format!("overflow {:?}", b), vec![self.operand(x, env), self.operand(y, env)]),
                    AssertKind::OverflowNeg(x) => ("overflow Neg".into(), vec![self.operand(x, env)]),
                    AssertKind::DivisionByZero(x) => ("div by zero".into(), vec![self.operand(x, env)]),
                    AssertKind::RemainderByZero(x) => ("rem by zero".into(), vec![self.operand(x, env)]),
                    x => (format!("other {:?}", x), vec![]),
                };
                o.push(("msg", s(mk)));
                o.push(("ops", J::A(ops)));
                o.push(("to", n(target.as_usize())));
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", n(real_target.as_usize())));
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push(("k", s("unwind"))),
            x => {
                o.push(("k", s("other")));
                o.push(("d", s(format!("{:?}", x))));
            }
        }
        J::O(o)
    }

    fn body_j(&mut self, body: &Body<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, env, EarlyBinder::bind(self.tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => {
                return J::O(vec![("err", s("normalize"))]);
            }
        };
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty, env)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p, env);
                names.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, env);
                        let r = self.rvalue(&b.1, env);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, env);
                        st.push(J::A(vec![s("setdiscr"), p, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(l.as_usize())])),
                    StatementKind::Intrinsic(i) => st.push(J::A(vec![s("intrinsic"), s(format!("{:?}", i))])),
                    _ => {}
                }
            }
            let t = self.term(bb.terminator(), env);
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("cleanup", J::B(bb.is_cleanup))]));
        }
        J::O(vec![
            ("argc", n(body.arg_count)),
            ("spread", match body.spread_arg { Some(l) => n(l.as_usize()), None => J::Null }),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn function(&mut self, k: Key<'tcx>, root: bool) -> J {
        let tcx = self.tcx;
        let d = k.inst.def_id();
        let path = self.path(d);
        let krate = tcx.crate_name(d.krate).to_string();
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, k.inst.args));
        let kind = match k.inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            x => format!("{:?}", x),
        };
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(path.clone())),
            ("crate", s(krate.clone())),
            ("local", J::B(d.is_local())),
            ("root", J::B(root)),
            ("full", s(full)),
            ("kind", s(kind)),
        ];
        let ta: Vec<J> = k.inst.args.types().map(|x| self.ty(x, k.env)).collect();
        o.push(("targs", J::A(ta)));
        let ca: Vec<J> = k.inst.args.iter().filter_map(|a| a.as_const()).map(|c| match c.try_to_target_usize(tcx) { Some(x) => J::I(x as i128), None => s(format!("{:?}", c)) }).collect();
        o.push(("cargs", J::A(ca)));
        if d.is_local() {
            o.push(("sp", self.span(tcx.def_span(d))));
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
        }
        if let Some(assoc) = tcx.opt_associated_item(d) {
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", s(with_no_trimmed_paths!(format!("{}", st)))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.skip_binder();
                    o.push(("impl_trait", s(self.path(tr.def_id))));
                }
            }
            if let Some(t) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(self.path(t))));
            }
            o.push(("name", s(assoc.name().to_string())));
        } else if let Some(nm) = tcx.opt_item_name(d) {
            o.push(("name", s(nm.to_string())));
        }
        let has_body = match k.inst.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && !matches!(tcx.def_kind(d), DefKind::Ctor(..)),
            _ => false,
        };
        if has_body && (d.is_local() || (follow_crate(&krate) && follow_path(&path))) {
            let body = tcx.instance_mir(k.inst.def);
            let b = self.body_j(body, k.inst, k.env);
            o.push(("body", b));
        }
        J::O(o)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("SA_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if name != "md_recover" {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, types: HashMap::new(), type_j: vec![], fns: HashMap::new(), queue: VecDeque::new(), fn_j: vec![] };
        let mut consts = vec![];
        for l in tcx.mir_keys(()).iter() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = GenericArgs::identity_for_item(tcx, d);
                    let env = TypingEnv::post_analysis(tcx, d);
                    let inst = tcx.erase_and_anonymize_regions(Instance { def: InstanceKind::Item(d), args });
                    let env = if inst.args.has_param() { env } else { TypingEnv::fully_monomorphized() };
                    let k = Key { inst, env };
                    if cx.fns.contains_key(&k) {
                        continue;
                    }
                    let i = cx.fn_j.len();
                    cx.fns.insert(k, i);
                    cx.fn_j.push(J::Null);
                    cx.queue.push_back((i, k, true));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let args = GenericArgs::identity_for_item(tcx, d);
                    let env = TypingEnv::post_analysis(tcx, d);
                    let ct = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ct = cx.norm(env, ct);
                    let tj = cx.ty(ct, env);
                    let mut o = vec![("path", s(cx.path(d))), ("ty", tj), ("sp", cx.span(tcx.def_span(d)))];
                    if !matches!(tcx.def_kind(d), DefKind::Static { .. }) {
                        let u = UnevaluatedConst { def: d, args, promoted: None };
                        let co = ConstOperand { span: tcx.def_span(d), user_ty: None, const_: Const::Unevaluated(u, ct) };
                        let v = cx.constant(&co, env);
                        o.push(("const", v));
                    }
                    consts.push(J::O(o));
                }
                _ => {}
            }
        }
        while let Some((i, k, root)) = cx.queue.pop_front() {
            let j = cx.function(k, root);
            cx.fn_j[i] = j;
        }
        let types = std::mem::take(&mut cx.type_j);
        let fns = std::mem::take(&mut cx.fn_j);
        let files: Vec<J> = tcx
            .sess
            .source_map()
            .files()
            .iter()
            .filter_map(|f| match &f.name {
                rustc_span::FileName::Real(r) => r.local_path().map(|p| s(p.display().to_string())),
                _ => None,
            })
            .collect();
        let j = J::O(vec![("files", J::A(files)), ("types", J::A(types)), ("fns", J::A(fns)), ("consts", J::A(consts))]);
        let mut o = String::new();
        j.write(&mut o);
        std::fs::write(&out, o).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // invoked as RUSTC_WORKSPACE_WRAPPER: args = [rustc, ...]
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Zub-checks=no".into());
    args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull".into());
    let mut cb = Cb;
    std::process::exit(if rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb)) == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
