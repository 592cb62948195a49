// mirdump: a rustc driver that type-checks a workspace crate exactly as cargo asks for it and then
// writes the drop-elaborated, type-resolved MIR of every function (and of the small std combinators
// they instantiate) as JSON, one file per crate/target.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_const_eval::const_eval::DummyMachine;
use rustc_const_eval::interpret::{InterpCx, OpTy, Projectable};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

// ---------------------------------------------------------------- tiny JSON writer
enum J {
    Null,
    B(bool),
    I(i128),
    F(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn esc(out: &mut String, x: &str) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => { let _ = write!(out, "\\u{:04x}", c as u32); }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{i}"); }
            J::F(x) => o.push_str(x),
            J::S(x) => esc(o, x),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    esc(o, k); o.push(':'); x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cb;

fn names<R>(f: impl FnOnce() -> R) -> R {
    with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(f())))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, bool)>,
    seen: HashSet<String>,
    types: BTreeMap<String, String>,
    adts: BTreeMap<String, String>,
    cur_env: TypingEnv<'tcx>,
}

const STD_OK: &[&str] = &[
    "core::option::", "core::result::", "core::ops::try_trait", "core::ops::function", "core::ops::control_flow",
    "core::convert::", "core::mem::swap", "core::mem::replace", "core::mem::take",
    "core::iter::adapters::enumerate", "core::iter::adapters::map", "core::iter::adapters::take::", "core::bool::", "core::cmp::",
    "core::default::", "core::tuple", "core::ops::range::", "core::array::equality", "core::str::traits",
];

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String { names(|| self.tcx.def_path_str(d)) }
    fn tystr(&self, t: Ty<'tcx>) -> String { names(|| t.to_string()) }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let k = self.tystr(t);
        if !self.types.contains_key(&k) {
            self.types.insert(k.clone(), "null".into());
            let j = self.ty_desc(t);
            let mut o = String::new();
            j.w(&mut o);
            self.types.insert(k.clone(), o);
        }
        s(k)
    }
    fn ty_desc(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Int(i) => J::O(vec![("k", s("int")), ("n", s(i.name_str()))]),
            ty::Uint(i) => J::O(vec![("k", s("uint")), ("n", s(i.name_str()))]),
            ty::Float(i) => J::O(vec![("k", s("float")), ("n", s(i.name_str()))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Ref(_, x, m) => { let x = self.ty(*x); J::O(vec![("k", s("ref")), ("to", x), ("mut", J::B(m.is_mut()))]) }
            ty::RawPtr(x, m) => { let x = self.ty(*x); J::O(vec![("k", s("ptr")), ("to", x), ("mut", J::B(m.is_mut()))]) }
            ty::Slice(x) => { let x = self.ty(*x); J::O(vec![("k", s("slice")), ("to", x)]) }
            ty::Array(x, _) => { let x = self.ty(*x); J::O(vec![("k", s("array")), ("to", x)]) }
            ty::Tuple(xs) => { let v: Vec<J> = xs.iter().map(|x| self.ty(x)).collect(); J::O(vec![("k", s("tuple")), ("of", J::A(v))]) }
            ty::Adt(def, args) => {
                let name = self.path(def.did());
                self.adt(def.did());
                let v: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                let krate = self.tcx.crate_name(def.did().krate).to_string();
                let ws = ["gmatlib", "geqslib", "nexsys", "neapolitan", "nxc", "ngineer_js_bindings"].contains(&krate.as_str());
                let small = ["core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow", "core::ops::range::Range"].contains(&name.as_str());
                let mut fs = vec![];
                if (ws || small) && !def.is_union() {
                    for v in def.variants() {
                        let mut row = vec![];
                        for f in &v.fields {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            row.push(self.ty(ft));
                        }
                        fs.push(J::A(row));
                    }
                }
                J::O(vec![("k", s("adt")), ("adt", s(name)), ("args", J::A(v)), ("ftys", J::A(fs))])
            }
            ty::Closure(d, args) => {
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                J::O(vec![("k", s("closure")), ("def", s(self.path(*d))), ("up", J::A(ups))])
            }
            ty::FnDef(d, _) => J::O(vec![("k", s("fndef")), ("def", s(self.path(*d)))]),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr"))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn"))]),
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.as_str()))]),
            _ => J::O(vec![("k", s("other"))]),
        }
    }
    fn adt(&mut self, d: DefId) {
        let name = self.path(d);
        if self.adts.contains_key(&name) { return; }
        let def = self.tcx.adt_def(d);
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        for (idx, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { J::I(def.discriminant_for_variant(self.tcx, idx).val as i128) } else { J::Null };
            let fields: Vec<J> = v.fields.iter().map(|f| s(f.name.as_str())).collect();
            let vis: Vec<J> = v.fields.iter().map(|f| J::B(f.vis.is_public())).collect();
            let ftys: Vec<J> = v.fields.iter().map(|f| {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                s(names(|| t.to_string()))
            }).collect();
            vs.push(J::O(vec![("name", s(v.name.as_str())), ("discr", discr), ("fields", J::A(fields)), ("pub", J::A(vis)), ("ftys", J::A(ftys))]));
        }
        let j = J::O(vec![("kind", s(kind)), ("variants", J::A(vs)), ("local", J::B(d.is_local())), ("crate", s(self.tcx.crate_name(d.krate).as_str()))]);
        let mut o = String::new();
        j.w(&mut o);
        self.adts.insert(name, o);
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }
    // ------------------------------------------------------------ constants
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tj = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            return self.fnref(*d, args, tj);
        }
        let mut name = J::Null;
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() { name = s(self.path(u.def)); }
        }
        let v = match c.const_.eval(self.tcx, self.cur_env, c.span) {
            Ok(v) => self.const_value(v, t),
            Err(_) => J::Null,
        };
        J::O(vec![("c", v), ("ty", tj), ("name", name)])
    }
    fn static_init(&mut self, d: DefId, t: Ty<'tcx>) -> J {
        match self.tcx.eval_static_initializer(d) {
            Ok(a) => {
                let mut a = a.inner().clone();
                a.mutability = rustc_middle::mir::Mutability::Not;
                let a = self.tcx.mk_const_alloc(a);
                let id = self.tcx.reserve_and_set_memory_alloc(a);
                self.const_value(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, t)
            }
            Err(_) => J::Null,
        }
    }
    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let ecx = InterpCx::new(self.tcx, rustc_span::DUMMY_SP, self.cur_env, DummyMachine);
        let op = ecx.eval_mir_constant(&Const::Val(v, t), rustc_span::DUMMY_SP, None).discard_err();
        match op {
            Some(op) => self.op_value(&ecx, &op, 0),
            None => J::Null,
        }
    }
    fn op_value(&mut self, ecx: &InterpCx<'tcx, DummyMachine>, op: &OpTy<'tcx>, depth: usize) -> J {
        if depth > 8 { return J::Null; }
        let t = op.layout.ty;
        let r: Option<J> = (|| {
            match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                    let sc = ecx.read_scalar(op).discard_err()?;
                    let i = sc.try_to_scalar_int().ok()?;
                    let bits = i.to_bits(i.size());
                    Some(match t.kind() {
                        ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
                        ty::Char => J::O(vec![("char", J::I(bits as i128))]),
                        ty::Int(_) => J::O(vec![("int", J::I(i.size().sign_extend(bits)))]),
                        ty::Uint(_) => J::O(vec![("int", J::I(bits as i128))]),
                        ty::Float(f) => {
                            let x = match f.bit_width() { 64 => f64::from_bits(bits as u64), 32 => f32::from_bits(bits as u32) as f64, _ => return None };
                            J::O(vec![("float", if x.is_finite() { J::F(format!("{x:?}")) } else { s(format!("{x:?}")) })])
                        }
                        _ => unreachable!(),
                    })
                }
                ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                    if !inner.is_str() && !inner.is_trait() && !inner.is_slice() {
                        if let Some(sc) = ecx.read_scalar(op).discard_err() {
                            {
                                let p = sc.to_pointer(ecx);
                                if let Ok((prov, _)) = p.into_pointer_or_addr().map(|p| p.prov_and_relative_offset()) {
                                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                                        let shared = self.tcx.is_mutable_static(d) || !inner.is_freeze(self.tcx, self.cur_env);
                                        if shared || self.tcx.is_thread_local_static(d) {
                                            let name = s(self.path(d));
                                            let tj = self.ty(*inner);
let init = self.static_init(d, *inner);
                                            return Some(J::O(vec![("static", name), ("sty", tj), ("init", init)]));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if inner.is_str() {
                        let m = ecx.deref_pointer(op).discard_err()?;
                        let x = ecx.read_str(&m).discard_err()?;
                        return Some(J::O(vec![("str", s(x))]));
                    }
                    if inner.is_trait() { return None; }
                    let m = ecx.deref_pointer(op).discard_err()?;
                    let mo: OpTy<'tcx> = m.into();
                    let v = self.op_value(ecx, &mo, depth + 1);
                    Some(J::O(vec![("ref", v)]))
                }
                ty::Array(..) | ty::Slice(..) => {
                    let n = op.len(ecx).discard_err()?;
                    if n > 4096 { return None; }
                    let mut v = vec![];
                    for i in 0..n {
                        let e = ecx.project_index(op, i).discard_err()?;
                        v.push(self.op_value(ecx, &e, depth + 1));
                    }
                    Some(J::O(vec![("arr", J::A(v))]))
                }
                ty::Tuple(ts) => {
                    let mut v = vec![];
                    for i in 0..ts.len() {
                        let e = ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)).discard_err()?;
                        v.push(self.op_value(ecx, &e, depth + 1));
                    }
                    Some(J::O(vec![("tuple", J::A(v))]))
                }
                ty::FnDef(d, args) => { let tj = self.ty(t); Some(self.fnref(*d, args.skip_binder(), tj)) }
                ty::FnPtr(..) => {
                    let sc = ecx.read_scalar(op).discard_err()?;
                    let p = sc.to_pointer(ecx);
                    let (prov, _) = p.into_pointer_or_addr().ok()?.prov_and_relative_offset();
                    match self.tcx.global_alloc(prov.alloc_id()) {
                        rustc_middle::mir::interpret::GlobalAlloc::Function { instance } => {
                            let tj = self.ty(t);
                            Some(self.fnref(instance.def_id(), instance.args, tj))
                        }
                        _ => None,
                    }
                }
                ty::Adt(def, _) if def.is_union() && self.tcx.def_path_str(def.did()).contains("lazy_lock::Data") => {
                    // a LazyLock holds its function until it is forced
                    let i = def.non_enum_variant().fields.iter().position(|f| f.name.as_str() == "f")?;
                    let e = ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)).discard_err()?;
                    Some(self.op_value(ecx, &e, depth + 1))
                }
                ty::Adt(def, _) if !def.is_union() => {
                    let (vi, d) = if def.is_enum() {
                        let vi = ecx.read_discriminant(op).discard_err()?;
                        (vi, ecx.project_downcast(op, vi).discard_err()?)
                    } else {
                        (rustc_abi::VariantIdx::from_usize(0), op.clone())
                    };
                    let mut v = vec![];
                    let nf = def.variant(vi).fields.len();
                    for i in 0..nf {
                        let e = ecx.project_field(&d, rustc_abi::FieldIdx::from_usize(i)).discard_err()?;
                        v.push(self.op_value(ecx, &e, depth + 1));
                    }
                    let name = self.path(def.did());
                    self.adt(def.did());
                    Some(J::O(vec![("adt", s(name)), ("v", J::I(vi.as_usize() as i128)), ("f", J::A(v))]))
                }
                _ => None,
            }
        })();
        r.unwrap_or(J::Null)
    }
    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, tj: J) -> J {
        let gen = self.path(d);
        let mut key = J::Null;
        let mut kind = "item";
        let mut selfty = J::Null;
        let mut has_body = false;
        let mut targs = vec![];
        for a in args.types() { targs.push(s(self.tystr(a))); }
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = tr;
            if args.len() > 0 { if let Some(t) = args.get(0).and_then(|a| a.as_type()) { selfty = self.ty(t); } }
        }
        let mut rpath = J::Null;
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.cur_env, d, args) {
            kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(sh) => match sh {
                    ty::ShimKind::FnPtr(..) => "fnptr_shim",
                    ty::ShimKind::ClosureOnce { .. } => "closure_once",
                    ty::ShimKind::Reify(..) => "reify",
                    ty::ShimKind::Clone(..) => "clone_shim",
                    ty::ShimKind::DropGlue(..) => "drop_glue",
                    _ => "shim",
                },
            };
            rpath = s(self.path(inst.def_id()));
            let k = self.inst_key(inst);
            if kind == "item" || kind == "closure_once" || kind == "reify" {
                has_body = self.enqueue(inst);
            }
            key = s(k);
        }
        J::O(vec![("fn", key), ("path", s(gen)), ("rpath", rpath), ("kind", s(kind)), ("self", selfty), ("targs", J::A(targs)), ("body", J::B(has_body)), ("ty", tj)])
    }
    fn inst_key(&self, i: Instance<'tcx>) -> String {
        let base = names(|| self.tcx.def_path_str_with_args(i.def_id(), i.args));
        match i.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => format!("{{closure_once}}{}<{}>", self.path(closure), base),
            _ => format!("{{shim}}{}", names(|| i.to_string())),
        }
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) -> bool {
        let d = inst.def_id();
        let cname = self.tcx.crate_name(d.krate);
        let stdlike = matches!(cname.as_str(), "core" | "std" | "alloc");
        let p = self.path(d);
        let ok = match inst.def {
            InstanceKind::Item(_) => {
                if stdlike { STD_OK.iter().any(|x| p.contains(x)) && self.tcx.is_mir_available(d) }
                else if d.is_local() { self.tcx.is_mir_available(d) }
                else { WORKSPACE.contains(&cname.as_str()) && self.tcx.is_mir_available(d) }
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
            _ => false,
        };
        if !ok { return false; }
        let k = self.inst_key(inst);
        if self.seen.insert(k) { self.queue.push_back((inst, self.cur_env, false)); }
        true
    }
    // ------------------------------------------------------------ bodies
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => J::I(f.as_usize() as i128),
                ProjectionElem::Index(l) => J::A(vec![s("ix"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("cix"), J::I(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("as"), J::I(vi.as_usize() as i128)]),
                _ => J::A(vec![s("other")]),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.constant(c)]),
            _ => J::A(vec![s("const"), J::O(vec![("c", J::O(vec![("bool", J::B(false))])), ("ty", s("bool")), ("name", J::Null)])]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.operand(o), n])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("ref"), J::B(matches!(k, RawPtrKind::Mut)), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let kn = match k {
                    CastKind::PointerCoercion(pc, _) => format!("coerce:{pc:?}"),
                    k => format!("{k:?}"),
                };
                let o2 = self.operand(o);
                // reified function pointers: keep the function they point to reachable
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(kn), o2, t])
            }
            Rvalue::BinaryOp(op, b) => J::A(vec![s("bin"), s(format!("{op:?}")), self.operand(&b.0), self.operand(&b.1)]),
            Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(o)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        self.adt(*d);
                        J::A(vec![s("adt"), s(self.path(*d)), J::I(vi.as_usize() as i128), af.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        self.enqueue(inst);
                        J::A(vec![s("closure"), s(self.inst_key(inst)), s(self.path(*d))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::ThreadLocalRef(d) => {
                let inner = self.tcx.type_of(*d).instantiate_identity().skip_norm_wip();
                let v = self.static_init(*d, inner);
                let tj = self.ty(inner);
                let c = J::O(vec![("static", s(self.path(*d))), ("sty", tj), ("init", v)]);
                J::A(vec![s("use"), J::A(vec![s("const"), J::O(vec![("c", c), ("ty", J::Null), ("name", J::Null)])])])
            }
            _ => J::A(vec![s("unknown"), s(format!("{r:?}"))]),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("cont"),
            UnwindAction::Unreachable => s("unreach"),
            UnwindAction::Terminate(_) => s("abort"),
            UnwindAction::Cleanup(b) => J::I(b.as_usize() as i128),
        }
    }
    fn term(&mut self, t: &Terminator<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let j = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![s("goto"), J::I(target.as_usize() as i128)],
            TerminatorKind::SwitchInt { discr, targets } => {
                let mut v = vec![];
                for (val, b) in targets.iter() { v.push(J::A(vec![J::I(val as i128), J::I(b.as_usize() as i128)])); }
                vec![s("switch"), self.operand(discr), J::A(v), J::I(targets.otherwise().as_usize() as i128)]
            }
            TerminatorKind::UnwindResume => vec![s("resume")],
            TerminatorKind::UnwindTerminate(_) => vec![s("abort")],
            TerminatorKind::Return => vec![s("return")],
            TerminatorKind::Unreachable => vec![s("unreachable")],
            TerminatorKind::Drop { place, target, unwind, .. } => vec![s("drop"), self.place(place), J::I(target.as_usize() as i128), self.unwind(unwind)],
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = self.operand(func);
                let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                vec![s("call"), f, J::A(a), self.place(destination), target.map(|b| J::I(b.as_usize() as i128)).unwrap_or(J::Null), self.unwind(unwind)]
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let (m, extra) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds", vec![self.operand(len), self.operand(index)]),
                    AssertKind::Overflow(op, a, b) => ("overflow", vec![s(format!("{op:?}")), self.operand(a), self.operand(b)]),
                    AssertKind::OverflowNeg(a) => ("overflow_neg", vec![self.operand(a)]),
                    AssertKind::DivisionByZero(a) => ("div0", vec![self.operand(a)]),
                    AssertKind::RemainderByZero(a) => ("rem0", vec![self.operand(a)]),
                    _ => ("other", vec![]),
                };
                vec![s("assert"), self.operand(cond), J::B(*expected), s(m), J::A(extra), J::I(target.as_usize() as i128), self.unwind(unwind)]
            }
            TerminatorKind::FalseEdge { real_target, .. } => vec![s("goto"), J::I(real_target.as_usize() as i128)],
            TerminatorKind::FalseUnwind { real_target, .. } => vec![s("goto"), J::I(real_target.as_usize() as i128)],
            k => vec![s("unknown"), s(format!("{k:?}"))],
        };
        let mut j = j;
        j.push(sp);
        J::A(j)
    }
    fn body(&mut self, inst: Instance<'tcx>, root: bool) -> J {
        let d = inst.def_id();
        let raw = self.tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.cur_env, EarlyBinder::bind(self.tcx, raw.clone()));
        let mut locals = vec![];
        for l in body.local_decls.iter() { let t = self.ty(l.ty); locals.push(t); }
        let mut dbg: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p);
                dbg.push(J::A(vec![s(v.name.as_str()), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setd"), p, J::I(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), J::I(l.as_usize() as i128)])),
                    _ => {}
                }
            }
            let t = self.term(bb.terminator());
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let local = d.is_local();
        let is_fn = matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
        let (mut vis, mut abi, mut nomangle, mut test) = (false, String::new(), false, false);
        if is_fn {
            vis = self.tcx.visibility(d).is_public();
            let sig = self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            abi = format!("{:?}", sig.abi());
            nomangle = self.tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE);
            let _ = &mut test;
        }
        let imp = self.tcx.impl_of_assoc(d).map(|i| {
            let st = self.tcx.type_of(i).instantiate_identity().skip_norm_wip();
            let tr = self.tcx.impl_opt_trait_ref(i).map(|t| names(|| t.instantiate_identity().skip_norm_wip().to_string()));
            J::O(vec![("self", s(names(|| st.to_string()))), ("trait", tr.map(s).unwrap_or(J::Null))])
        }).unwrap_or(J::Null);
        let parent = if self.tcx.is_closure_like(d) { s(self.path(self.tcx.parent(d))) } else { J::Null };
        J::O(vec![
            ("key", s(self.inst_key(inst))), ("path", s(self.path(d))), ("crate", s(self.tcx.crate_name(d.krate).as_str())),
            ("root", J::B(root)), ("local", J::B(local)), ("pub", J::B(vis)), ("abi", s(abi)), ("nomangle", J::B(nomangle)), ("test", J::B(test)),
            ("closure", J::B(self.tcx.is_closure_like(d))), ("parent", parent), ("impl", imp),
            ("argc", J::I(body.arg_count as i128)), ("spread", body.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("span", self.span(body.span)), ("locals", J::A(locals)), ("dbg", J::A(dbg)), ("blocks", J::A(blocks)),
        ])
    }
}

const WORKSPACE: &[&str] = &["gmatlib", "geqslib", "neapolitan", "nexsys", "ngineer_js_bindings", "nxc"];

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let cname = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable");
        let env0 = TypingEnv::fully_monomorphized();
        let mut d = D { tcx, queue: VecDeque::new(), seen: HashSet::new(), types: BTreeMap::new(), adts: BTreeMap::new(), cur_env: env0 };
        let f64t = tcx.types.f64;
        for ldid in tcx.mir_keys(()).iter() {
            let did = ldid.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
            if !tcx.is_mir_available(did) { continue; }
            let generics = tcx.generics_of(did);
            let needs = generics.requires_monomorphization(tcx);
            // an instance over f64 for functions generic in plain type parameters, when it is well-formed
            let mut chosen: Option<(GenericArgsRef<'tcx>, TypingEnv<'tcx>)> = None;
            if needs {
                let cand = GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ty::GenericParamDefKind::Type { .. } => f64t.into(),
                    ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 1).into(),
                });
                // a provided method of a trait is not the one of a type that has its own
                let own = tcx.trait_of_assoc(did).is_none()
                    || matches!(Instance::try_resolve(tcx, env0, did, tcx.erase_and_anonymize_regions(cand)), Ok(Some(i)) if i.def_id() == did);
                if own && !tcx.instantiate_and_check_impossible_clauses((did, cand)) { chosen = Some((cand, env0)); }
            }
            let (args, env) = chosen.unwrap_or_else(|| {
                (GenericArgs::identity_for_item(tcx, did), if needs { TypingEnv::post_analysis(tcx, did) } else { env0 })
            });
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            d.cur_env = env;
            let k = d.inst_key(inst);
            if d.seen.insert(k) { d.queue.push_back((inst, env, true)); }
        }
        let mut o = String::from("{\"bodies\":[\n");
        let mut first = true;
        while let Some((inst, env, root)) = d.queue.pop_front() {
            d.cur_env = env;
            let j = d.body(inst, root);
            if !first { o.push_str(",\n"); }
            first = false;
            j.w(&mut o);
        }
        o.push_str("\n],\"types\":{");
        for (i, (k, v)) in d.types.iter().enumerate() { if i > 0 { o.push_str(",\n"); } esc(&mut o, k); o.push(':'); o.push_str(v); }
        o.push_str("},\"adts\":{");
        for (i, (k, v)) in d.adts.iter().enumerate() { if i > 0 { o.push_str(",\n"); } esc(&mut o, k); o.push(':'); o.push_str(v); }
        o.push_str("},\"reexports\":[");
        o.push_str("],\"crate\":");
        esc(&mut o, &cname);
        o.push_str(",\"bin\":");
        o.push_str(if is_bin { "true" } else { "false" });
        o.push_str("}\n");
        let p = format!("{}/{}{}.json", out, cname, if is_bin { ".bin" } else { "" });
        std::fs::create_dir_all(&out).expect("mirdump: mkdir");
        std::fs::write(&p, o).expect("mirdump: write");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && (args[1] == "rustc" || args[1].ends_with("/rustc")) { args.remove(1); }
    let builds_crate = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] != "___" && w[1] != "build_script_build");
    if builds_crate && std::env::var("MIRDUMP_OUT").is_ok() {
        for f in ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Zinline-mir=no", "-Coverflow-checks=on", "-Cdebug-assertions=off", "-Awarnings"] {
            args.push(f.to_string());
        }
    }
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
        std::process::ExitCode::SUCCESS
    })
}
