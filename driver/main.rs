//! Compiler driver which dumps the resolved program (MIR, types, constants) of one crate as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::{self, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};

// ---------------------------------------------------------------- json
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{i}"); }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    esc(k, o); o.push(':'); x.write(o);
                }
                o.push('}');
            }
        }
    }
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}

// ---------------------------------------------------------------- dump
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key<'tcx> { kind: BodyKind<'tcx>, args: GenericArgsRef<'tcx> }
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum BodyKind<'tcx> { Inst(InstanceKind<'tcx>), Promoted(DefId, mir::Promoted), Const(DefId) }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<(usize, Key<'tcx>, TypingEnv<'tcx>)>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    adts: HashSet<DefId>,
    adt_out: Vec<J>,
    fns: Vec<J>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }

    fn wanted(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let k = self.krate(d);
        let p = self.path(d);
        match k.as_str() {
            "core" => {
                ["option::", "result::", "ops::control_flow", "convert::", "bool::", "cmp::", "ops::range", "tuple::"].iter().any(|m| {
                    p.contains(&format!("core::{m}"))
                }) && !p.contains("iter::")
            }
            "amplify" | "strict_encoding" => true,
            _ => false,
        }
    }

    fn id_for(&mut self, key: Key<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.ids.get(&key) { return *i; }
        let i = self.ids.len();
        self.ids.insert(key, i);
        self.fns.push(J::Null);
        self.queue.push_back((i, key, env));
        i
    }

    fn has_body(&self, d: DefId) -> bool {
        match self.tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => self.tcx.is_mir_available(d),
            DefKind::Ctor(..) => false,
            _ => false,
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.types.get(&t) { return J::I(*i as i128); }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(J::Null);
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(t.to_string()));
        let mut o = vec![("s", s(name))];
        match t.kind() {
            TyKind::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                let a: Vec<J> = args.iter().map(|a| self.garg(a)).collect();
                o.push(("args", J::A(a)));
                self.adt(def.did());
            }
            TyKind::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*inner); o.push(("ty", x));
            }
            TyKind::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*inner); o.push(("ty", x));
            }
            TyKind::Slice(inner) => { o.push(("k", s("slice"))); let x = self.ty(*inner); o.push(("ty", x)); }
            TyKind::Array(inner, n) => {
                o.push(("k", s("array"))); let x = self.ty(*inner); o.push(("ty", x));
                if let Some(n) = n.try_to_target_usize(self.tcx) { o.push(("len", J::I(n as i128))); }
            }
            TyKind::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|a| self.ty(a)).collect();
                o.push(("args", J::A(a)));
            }
            TyKind::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.as_str()))); }
            TyKind::Alias(..) => o.push(("k", s("alias"))),
            TyKind::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(*d))));
                let (env, ar) = (self.env, args.no_bound_vars());
                if let Some(args) = ar {
                    let c = self.callee(*d, args, env);
                    o.push(("callee", c));
                }
            }
            TyKind::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                let env = self.env;
                let key = Key { kind: BodyKind::Inst(InstanceKind::Item(*d)), args };
                if self.has_body(*d) && self.wanted(*d) {
                    let id = self.id_for(key, env);
                    o.push(("fn", J::I(id as i128)));
                }
                o.push(("ckind", s(format!("{:?}", args.as_closure().kind()))));
            }
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Float(_) | TyKind::Str | TyKind::Never =>
                o.push(("k", s("prim"))),
            TyKind::Dynamic(..) => o.push(("k", s("dyn"))),
            TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        self.type_out[i] = J::O(o);
        J::I(i as i128)
    }

    fn garg(&mut self, a: ty::GenericArg<'tcx>) -> J {
        if let Some(t) = a.as_type() { self.ty(t) }
        else if let Some(c) = a.as_const() {
            match c.try_to_target_usize(self.tcx) { Some(n) => s(format!("#{n}")), None => s(format!("#{c}")) }
        }
        else { s("'r") }
    }

    fn adt(&mut self, d: DefId) {
        if !self.adts.insert(d) { return; }
        let def = self.tcx.adt_def(d);
        let discrs: Vec<(rustc_abi::VariantIdx, i128)> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(i, x)| (i, x.val as i128)).collect()
        } else { vec![] };
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let fields: Vec<J> = v.fields.iter().map(|f| {
                let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                J::O(vec![("name", s(f.name.as_str())),
                    ("ty", self.ty(ft)),
                    ("nty", s(if f.did.is_local() { match self.tcx.try_normalize_erasing_regions(ty::TypingEnv::post_analysis(self.tcx, d), self.tcx.type_of(f.did).instantiate_identity()) { Ok(t) => rustc_middle::ty::print::with_no_visible_paths!(t.to_string()), Err(_) => String::new() } } else { String::new() })),
                    ("vis", s(match f.vis { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(m) => self.path(m.to_def_id()) }))])
            }).collect();
            let discr = discrs.iter().find(|(i, _)| *i == vi).map(|(_, x)| J::I(*x)).unwrap_or(J::I(0));
            vs.push(J::O(vec![("name", s(v.name.as_str())), ("discr", discr), ("fields", J::A(fields))]));
        }
        let vis = match self.tcx.visibility(d) { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(m) => self.path(m.to_def_id()) };
        self.adt_out.push(J::O(vec![
            ("path", s(self.path(d))),
            ("crate", s(self.krate(d))),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("vis", s(vis)),
            ("variants", J::A(vs)),
        ]));
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("decl", s(self.path(d)))];
        let a: Vec<J> = args.iter().map(|a| self.garg(a)).collect();
        o.push(("args", J::A(a)));
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            // constructor function
            let parent = tcx.parent(d);
            let (adt, vidx) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.parent(parent);
                    (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_usize())
                }
                _ => (parent, 0),
            };
            self.adt(adt);
            o.push(("ctor", J::O(vec![("adt", s(self.path(adt))), ("variant", J::I(vidx as i128))])));
            return J::O(o);
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() { o.push(("unsafe", J::B(true))); }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                o.push(("path", s(self.path(rd))));
                o.push(("crate", s(self.krate(rd))));
                match inst.def {
                    InstanceKind::Item(rd) => {
                        if let Some(im) = tcx.impl_of_assoc(rd) {
                            let st = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                            let st = self.ty(tcx.erase_and_anonymize_regions(st));
                            o.push(("self", st));
                        }
                        if self.has_body(rd) && self.wanted(rd) {
                            let args = tcx.erase_and_anonymize_regions(inst.args);
                            let id = self.id_for(Key { kind: BodyKind::Inst(inst.def), args }, env);
                            o.push(("fn", J::I(id as i128)));
                        }
                    }
                    InstanceKind::Virtual(..) => o.push(("kind", s("virtual"))),
                    InstanceKind::Intrinsic(_) => o.push(("kind", s("intrinsic"))),
                    other => {
                        let n = format!("{other:?}");
                        o.push(("kind", s(n.split('(').next().unwrap_or("").to_string())));
                    }
                }
            }
            _ => { o.push(("kind", s("unresolved"))); }
        }
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("f"), J::I(f.as_usize() as i128), t]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } =>
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end), J::I(min_length as i128)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), J::I(v.as_usize() as i128)]),
                _ => s("?"),
            });
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(pr)])
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tj = self.ty(t);
        let mut o = vec![("ty", tj)];
        match t.kind() {
            TyKind::FnDef(d, args) => {
                let env = self.env;
                if let Some(args) = args.no_bound_vars() {
                    let c = self.callee(*d, args, env);
                    o.push(("fn", c));
                }
                return J::O(o);
            }
            _ => {}
        }
        if let ConstValue::Scalar(mir::interpret::Scalar::Int(i)) = v {
            if t.is_integral() || t.is_bool() || t.is_char() {
                let size = i.size();
                let val = if t.is_signed() { i.to_int(size) } else { i.to_uint(size) as i128 };
                let big = i.to_uint(size);
                if !t.is_signed() && big > i128::MAX as u128 { o.push(("big", s(big.to_string()))); } else { o.push(("int", J::I(val))); }
                return J::O(o);
            }
        }
        if let TyKind::Ref(_, inner, _) = t.kind() {
            if inner.is_str() || matches!(inner.kind(), TyKind::Slice(e) if *e == tcx.types.u8) {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if inner.is_str() { o.push(("str", s(String::from_utf8_lossy(b).to_string()))); }
                    else { o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))); }
                    return J::O(o);
                }
            }
            if let (TyKind::Slice(e), ConstValue::Indirect { alloc_id, offset }) = (inner.kind(), v) {
                // fat pointer in memory: items of the slice
                if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    let st = offset.bytes() as usize;
                    if a.len() >= st + 16 && depth < 6 {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + 16);
                        let mut off = 0u64; for i in 0..8 { off |= (b[i] as u64) << (8 * i); }
                        let mut n = 0u64; for i in 0..8 { n |= (b[8 + i] as u64) << (8 * i); }
                        let pr = a.provenance().ptrs().iter().find(|(o, _)| *o == offset).map(|(_, p)| p.alloc_id());
                        if let (Some(id), true) = (pr, n < 4096) {
                            let arr = ty::Ty::new_array(tcx, *e, n);
                            let x = self.const_val(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) }, arr, depth + 1);
                            o.push(("deref", x));
                        }
                    }
                }
                return J::O(o);
            }
            if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)) = v {
                let (prov, off) = ptr.prov_and_relative_offset();
                if let mir::interpret::GlobalAlloc::Memory(_) = tcx.global_alloc(prov.alloc_id()) {
                    if depth < 6 {
                        let x = self.const_val(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, *inner, depth + 1);
                        o.push(("deref", x));
                        return J::O(o);
                    }
                } else if let mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                    o.push(("static", s(self.path(d))));
                    return J::O(o);
                }
            }
            return J::O(o);
        }
        if depth < 6 && !ty::TypeVisitableExt::has_param(&t) {
            match t.kind() {
                TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Array(..) => {
                    if let Some(de) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<J> = de.fields.iter().map(|(v, t)| self.const_val(*v, *t, depth + 1)).collect();
                        if let Some(vi) = de.variant { o.push(("variant", J::I(vi.as_usize() as i128))); }
                        o.push(("fields", J::A(fs)));
                        return J::O(o);
                    }
                }
                TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char => {
                    // indirect scalar
                    if let ConstValue::Indirect { alloc_id, offset } = v {
                        if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let env = self.env;
                            if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                                let start = offset.bytes() as usize; let end = start + l.size.bytes() as usize;
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(start..end);
                                let mut x: u128 = 0; for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); }
                                o.push(("int", J::I(x as i128)));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        J::O(o)
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>, parent: DefId) -> J {
        let tcx = self.tcx;
        let env = self.env;
        let t = c.const_.ty();
        let mut name = None;
        let mut body = None;
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            name = Some(self.path(u.def));
            if let Some(p) = u.promoted {
                name = None;
                let args = tcx.erase_and_anonymize_regions(u.args);
                if self.wanted(u.def) && tcx.is_mir_available(u.def) {
                    body = Some(self.id_for(Key { kind: BodyKind::Promoted(u.def, p), args }, env));
                }
            } else {
                // resolve assoc consts
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                    if let InstanceKind::Item(d) = inst.def {
                        if self.wanted(d) && tcx.is_mir_available(d) && matches!(tcx.def_kind(d), DefKind::Const{..} | DefKind::AssocConst{..}) {
                            let args = tcx.erase_and_anonymize_regions(inst.args);
                            body = Some(self.id_for(Key { kind: BodyKind::Const(d), args }, env));
                        }
                    }
                }
            }
        }
        let _ = parent;
        let mut r = match c.const_ {
            mir::Const::Ty(_, ct) => {
                let mut o = vec![("ty", self.ty(t))];
                match ct.try_to_target_usize(tcx) { Some(n) => o.push(("int", J::I(n as i128))), None => {
                    o.push(("cparam", s(ct.to_string()))) } }
                J::O(o)
            }
            mir::Const::Val(v, t) => self.const_val(v, t, 0),
            mir::Const::Unevaluated(u, t) => {
                let ok = !ty::TypeVisitableExt::has_param(&u.args) || u.promoted.is_none() ;
                let r = if ok { c.const_.eval(tcx, env, c.span).ok() } else { None };
                match r { Some(v) => self.const_val(v, t, 0), None => J::O(vec![("ty", self.ty(t))]) }
            }
        };
        if let J::O(o) = &mut r {
            if let Some(n) = name { o.push(("name", s(n))); }
            if let Some(b) = body { o.push(("body", J::I(b as i128))); }
        }
        r
    }

    fn op(&mut self, o: &Operand<'tcx>, parent: DefId) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c, parent)]),
            Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{r:?}"))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, parent: DefId) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, parent)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.op(o, parent), n])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, mir::BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("raw"), J::B(matches!(k, mir::RawPtrKind::Mut)), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let kn = format!("{k:?}");
                J::A(vec![s("cast"), s(kn), self.op(o, parent), self.ty(*t)])
            }
            Rvalue::BinaryOp(b, x) => J::A(vec![s("bin"), s(format!("{b:?}")), self.op(&x.0, parent), self.op(&x.1, parent)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{u:?}")), self.op(o, parent)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), {
                let mut q = self.place(p);
                if let J::A(v) = &mut q { if let J::A(pr) = &mut v[1] { pr.push(s("*")); } }
                q }]),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.op(o, parent)).collect();
                let kk = match &**k {
                    mir::AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, v, args, _, uf) => {
                        self.adt(*d);
                        let a: Vec<J> = args.iter().map(|a| self.garg(a)).collect();
                        J::A(vec![s("adt"), s(self.path(*d)), J::I(v.as_usize() as i128), J::A(a),
                            uf.map(|f| J::I(f.as_usize() as i128)).unwrap_or(J::Null)])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let env = self.env;
                        let args = self.tcx.erase_and_anonymize_regions(*args);
                        let key = Key { kind: BodyKind::Inst(InstanceKind::Item(*d)), args };
                        let id = if self.wanted(*d) && self.has_body(*d) { J::I(self.id_for(key, env) as i128) } else { J::Null };
                        J::A(vec![s("closure"), s(self.path(*d)), id])
                    }
                    mir::AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kk, J::A(os)])
            }
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::I(lo.line as i128)
    }

    fn body(&mut self, id: usize, key: Key<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        self.env = env;
        let (did, raw): (DefId, mir::Body<'tcx>) = match key.kind {
            BodyKind::Inst(k) => (k.def_id(), tcx.instance_mir(k).clone()),
            BodyKind::Promoted(d, p) => (d, tcx.promoted_mir(d)[p].clone()),
            BodyKind::Const(d) => (d, tcx.mir_for_ctfe(d).clone()),
        };
        let inst = Instance::new_raw(did, key.args);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx, env, ty::EarlyBinder::bind(tcx, raw)) {
            Ok(b) => b,
            Err(_) => { self.fns[id] = J::O(vec![("name", s(self.path(did))), ("error", J::B(true))]); return; }
        };
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&l.as_usize()).map(|x| s(x.clone())).unwrap_or(J::Null);
            locals.push(J::A(vec![t, n]));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let ln = self.line(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(p);
                        let rj = self.rvalue(r, did);
                        st.push(J::A(vec![s("="), pj, rj, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(J::A(vec![s("setd"), pj, J::I(variant_index.as_usize() as i128), ln]));
                    }
                    StatementKind::Intrinsic(i) => {
                        let mut kind = "other";
                        if let mir::NonDivergingIntrinsic::Assume(_) = &**i { kind = "assume"; }
                        st.push(J::A(vec![s("intr"), s(kind), ln]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let bbj = |b: mir::BasicBlock| J::I(b.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbj(*target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbj(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbj(*real_target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dj = self.op(discr, did);
                    let t = discr.ty(&body.local_decls, tcx);
                    let tj = self.ty(t);
                    let ts: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![s(v.to_string()), bbj(b)])).collect();
                    J::A(vec![s("switch"), dj, tj, J::A(ts), bbj(targets.otherwise())])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pj = self.place(place);
                    J::A(vec![s("drop"), pj, bbj(*target)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let cj = self.op(cond, did);
                    let (mk, ops): (String, Vec<J>) = match &**msg {
                        mir::AssertKind::Overflow(b, x, y) => (format!("overflow:{b:?}"), vec![self.op(x, did), self.op(y, did)]),
                        mir::AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.op(x, did)]),
                        mir::AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(len, did), self.op(index, did)]),
                        mir::AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.op(x, did)]),
                        mir::AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.op(x, did)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![s("assert"), cj, J::B(*expected), s(mk), J::A(ops), bbj(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let fj = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::FnDef(d, a) => { let a = a.no_bound_vars().unwrap(); self.callee(*d, a, env) }
                            _ => J::O(vec![("op", self.op(func, did))]),
                        },
                        _ => J::O(vec![("op", self.op(func, did))]),
                    };
                    let aj: Vec<J> = args.iter().map(|a| self.op(&a.node, did)).collect();
                    let dj = self.place(destination);
                    let tj = target.map(bbj).unwrap_or(J::Null);
                    let ln2 = self.line(*fn_span);
                    let _ = ln2;
                    J::A(vec![s("call"), fj, J::A(aj), dj, tj])
                }
                other => J::A(vec![s("other"), s(format!("{other:?}"))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("l", ln), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let sm = tcx.sess.source_map();
        let lo = sm.lookup_char_pos(body.span.lo());
        let file = match &lo.file.name { rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into()), _ => "?".into() };
        let mut o = vec![("name", s(self.path(did))), ("crate", s(self.krate(did)))];
        o.push(("kind", s(match key.kind { BodyKind::Inst(_) => if tcx.is_closure_like(did) { "closure" } else { "fn" }, BodyKind::Promoted(..) => "promoted", BodyKind::Const(_) => "const" })));
        let a: Vec<J> = key.args.iter().map(|a| self.garg(a)).collect();
        o.push(("args", J::A(a)));
        o.push(("identity", J::B(key.args == tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did)))));
        if let BodyKind::Inst(_) = key.kind {
            if !tcx.is_closure_like(did) {
                if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate(tcx, key.args).skip_norm_wip();
                    let st = self.ty(tcx.erase_and_anonymize_regions(st));
                    o.push(("self", st));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.skip_binder();
                        o.push(("trait", s(self.path(tr.def_id))));
                        let trs = rustc_middle::ty::print::with_no_trimmed_paths!(tr.to_string());
                        o.push(("trait_ref", s(trs)));
                    }
                    o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                } else if let Some(tr) = tcx.trait_of_assoc(did) {
                    o.push(("in_trait", s(self.path(tr))));
                }
                o.push(("vis", s(match tcx.visibility(did) { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(m) => self.path(m.to_def_id()) })));
                o.push(("unsafe", J::B(tcx.fn_sig(did).skip_binder().safety().is_unsafe())));
            } else {
                o.push(("parent", s(self.path(tcx.typeck_root_def_id(did)))));
            }
            o.push(("item", s(tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default())));
        }
        o.push(("file", s(file)));
        o.push(("line", J::I(lo.line as i128)));
        o.push(("from_expansion", J::B(body.span.from_expansion())));
        o.push(("argc", J::I(body.arg_count as i128)));
        o.push(("spread", body.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::Null)));
        o.push(("locals", J::A(locals)));
        o.push(("blocks", J::A(blocks)));
        self.fns[id] = J::O(o);
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.cg.debug_assertions = Some(false);
        config.opts.cg.overflow_checks = Some(true);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let env = TypingEnv::fully_monomorphized();
        let mut d = Dump { tcx, ids: HashMap::new(), queue: VecDeque::new(), types: HashMap::new(), type_out: vec![],
            adts: HashSet::new(), adt_out: vec![], fns: vec![], env };
        // local traits and implementors, used to instantiate generic functions
        let mut trait_impls: Vec<(DefId, Vec<Ty<'tcx>>)> = vec![];
        let mut impls_out = vec![];
        for tr in tcx.all_traits_including_private().filter(|t| t.is_local()) {
            let mut tys = vec![];
            for im in tcx.all_impls(tr) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let st = tcx.erase_and_anonymize_regions(st);
                if !ty::TypeVisitableExt::has_param(&st) { tys.push(st); }
            }
            trait_impls.push((tr, tys));
        }
        for im in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { .. } = tcx.def_kind(im) {
                let did = im.to_def_id();
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let st = d.ty(tcx.erase_and_anonymize_regions(st));
                let tr = tcx.impl_opt_trait_ref(did).map(|t| t.skip_binder());
                let mut o = vec![("self", st), ("derived", J::B(tcx.is_automatically_derived(did)))];
                if let Some(tr) = tr {
                    o.push(("trait", s(d.path(tr.def_id))));
                    o.push(("trait_ref", s(rustc_middle::ty::print::with_no_trimmed_paths!(tr.to_string()))));
                }
                let items: Vec<J> = tcx.associated_item_def_ids(did).iter().map(|x| s(tcx.opt_item_name(*x).map(|n| n.to_string()).unwrap_or_default())).collect();
                o.push(("items", J::A(items)));
                impls_out.push(J::O(o));
            }
        }
        let mut statics = vec![];
        let mut roots = 0;
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            if let DefKind::Struct | DefKind::Enum = kind { d.adt(did); }
            if let DefKind::Static { mutability, .. } = kind {
                statics.push(J::O(vec![("path", s(d.path(did))), ("mut", J::B(mutability.is_mut()))]));
            }
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(did) { continue; }
                    roots += 1;
                    let env = TypingEnv::post_analysis(tcx, did);
                    let ident = ty::GenericArgs::identity_for_item(tcx, did);
                    let ident = tcx.erase_and_anonymize_regions(ident);
                    d.env = env;
                    d.id_for(Key { kind: BodyKind::Inst(InstanceKind::Item(did)), args: ident }, env);
                    // instantiations of a parameter bound by a local trait
                    let preds = tcx.clauses_of(did).instantiate_identity(tcx);
                    let mut params: Vec<(u32, Vec<Ty<'tcx>>)> = vec![];
                    for p in preds.clauses.iter() {
                        let p = p.skip_norm_wip();
                        if let Some(tp) = p.as_trait_clause() {
                            let tp = tp.skip_binder();
                            if let TyKind::Param(pt) = tp.self_ty().kind() {
                                if pt.name.as_str() == "Self" { continue; }
                                if let Some((tr, tys)) = trait_impls.iter().find(|(t, _)| *t == tp.def_id()) {
                                    if d.path(*tr).contains("TypeRef") || d.path(*tr).contains("LibSubref") {
                                        if !params.iter().any(|(i, _)| *i == pt.index) { params.push((pt.index, tys.clone())); }
                                    }
                                }
                            }
                        }
                    }
                    if params.len() == 1 {
                        let (idx, tys) = params[0].clone();
                        for t in tys {
                            let args = tcx.mk_args_from_iter(ident.iter().enumerate().map(|(i, a)| if i == idx as usize { ty::GenericArg::from(t) } else { a }));
                            if tcx.instantiate_and_check_impossible_clauses((did, args)) { continue; }
                            d.id_for(Key { kind: BodyKind::Inst(InstanceKind::Item(did)), args }, env);
                        }
                    }
                }
                _ => {}
            }
        }
        // local consts (bodies and values)
        let mut consts = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            if let DefKind::Const { .. } | DefKind::AssocConst { .. } = tcx.def_kind(did) {
                if tcx.generics_of(did).requires_monomorphization(tcx) && !matches!(tcx.def_kind(did), DefKind::AssocConst { .. }) { continue; }
                if let Some(p) = tcx.trait_of_assoc(did) { let _ = p; continue; }
                d.env = TypingEnv::post_analysis(tcx, did);
                if let Ok(v) = tcx.const_eval_poly(did) {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let j = d.const_val(v, t, 0);
                    consts.push(J::O(vec![("path", s(d.path(did))), ("val", j)]));
                }
            }
        }
        while let Some((i, k, env)) = d.queue.pop_front() {
            d.body(i, k, env);
        }
        // unsafe blocks in local HIR
        let mut unsafes = vec![];
        struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<J>, owner: String, typeck: &'tcx ty::TypeckResults<'tcx>, ops: Vec<String>, depth: usize }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                let foreign_macro = b.span.from_expansion()
                    && b.span.ctxt().outer_expn_data().macro_def_id.map(|d| !d.is_local()).unwrap_or(true);
                if let (rustc_hir::BlockCheckMode::UnsafeBlock(_), false) = (b.rules, foreign_macro) {
                    let txt = self.tcx.sess.source_map().span_to_snippet(b.span).unwrap_or_default();
                    self.depth += 1;
                    let before = std::mem::take(&mut self.ops);
                    rustc_hir::intravisit::walk_block(self, b);
                    let ops = std::mem::replace(&mut self.ops, before);
                    self.depth -= 1;
                    self.out.push(J::O(vec![("fn", s(self.owner.clone())), ("text", s(txt)), ("ops", J::A(ops.into_iter().map(s).collect()))]));
                    return;
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
            fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
                if self.depth > 0 {
                    use rustc_hir::ExprKind as K;
                    match e.kind {
                        K::Unary(rustc_hir::UnOp::Deref, x) => if let Some(t) = self.typeck.expr_ty_opt(x) { if t.is_raw_ptr() { self.ops.push("raw-deref".to_string()); } },
                        K::InlineAsm(_) => self.ops.push("asm".to_string()),
                        K::MethodCall(..) => if let Some(d) = self.typeck.type_dependent_def_id(e.hir_id) {
                            if self.tcx.fn_sig(d).skip_binder().safety().is_unsafe() { self.ops.push(format!("call {}", self.tcx.def_path_str(d))); }
                        },
                        K::Call(f, _) => if let Some(t) = self.typeck.expr_ty_opt(f) {
                            if let ty::FnDef(d, _) = t.kind() { if !matches!(self.tcx.def_kind(*d), DefKind::Ctor(..)) && self.tcx.fn_sig(*d).skip_binder().safety().is_unsafe() { self.ops.push(format!("call {}", self.tcx.def_path_str(*d))); } }
                            else if let ty::FnPtr(..) = t.kind() { self.ops.push("call pointer".to_string()); }
                        },
                        K::Path(rustc_hir::QPath::Resolved(_, p)) => if let rustc_hir::def::Res::Def(DefKind::Static { .. }, d) = p.res {
                            self.ops.push(format!("static {}", self.tcx.def_path_str(d)));
                        },
                        K::Field(x, _) => if let Some(t) = self.typeck.expr_ty_opt(x) { if t.is_union() { self.ops.push("union-field".to_string()); } },
                        _ => {}
                    }
                }
                rustc_hir::intravisit::walk_expr(self, e);
            }
        }
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            if tcx.is_closure_like(did) { continue; }
            let owner = d.path(did);
            let body = tcx.hir_body_owned_by(ld);
            let mut v = V { tcx, out: &mut unsafes, owner, typeck: tcx.typeck(ld), ops: vec![], depth: 0 };
            rustc_hir::intravisit::Visitor::visit_body(&mut v, body);
        }
        let mut out = String::new();
        J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("roots", J::I(roots)),
            ("types", J::A(std::mem::take(&mut d.type_out))),
            ("adts", J::A(std::mem::take(&mut d.adt_out))),
            ("impls", J::A(impls_out)),
            ("consts", J::A(consts)),
            ("statics", J::A(statics)),
            ("unsafe_blocks", J::A(unsafes)),
            ("fns", J::A(std::mem::take(&mut d.fns))),
        ]).write(&mut out);
        std::fs::write(&self.out, out).expect("write dump");
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == std::env::var("VDUMP_CRATE").unwrap_or_default())
        && args.iter().any(|a| a == "lib" || a.contains("crate-type=lib"))
        && !args.iter().any(|a| a == "--test");
    rustc_driver::catch_with_exit_code(|| {
        if is_lib {
            let out = std::env::var("VDUMP_OUT").expect("VDUMP_OUT");
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
