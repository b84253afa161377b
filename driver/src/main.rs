//! kvdump: a rustc driver that writes the type-checked program (monomorphised
//! MIR with resolved callees, types and decoded constants) of the
//! `klavier_core` crate as JSON.  It is used as RUSTC_WORKSPACE_WRAPPER; every
//! other crate is compiled unchanged.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldsShape, Size, TagEncoding, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{alloc_range, AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, e) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    e.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, e)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", n);
                    e.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    fns: Vec<J>,
    fnmap: HashMap<(Instance<'tcx>, bool), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, bool)>,
}

const EXT_BODIES: &[&str] = &[
    "core::option::", "core::result::", "core::cmp::", "core::convert::", "core::clone::", "core::default::",
    "core::num::", "core::ops::function::", "core::ops::arith::", "core::ops::bit::", "core::borrow::", "core::bool::",
    "core::tuple::", "core::ops::range::", "core::ops::control_flow", "core::ops::try_trait",
];

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(tcx.def_path_str(d))))
}
fn tystr(t: Ty<'_>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(format!("{}", t))))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        // outermost expansion site, so that macro-generated code points at the user's line
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", name, lo.line)
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(k) = self.tymap.get(&t) {
            return *k;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, id);
        let tcx = self.tcx;
        let name = tystr(t);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(name))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(it) => {
                o.push(("k", s("int")));
                o.push(("bits", i(it.bit_width().unwrap_or(64) as usize)));
                o.push(("signed", J::B(true)));
            }
            ty::Uint(it) => {
                o.push(("k", s("int")));
                o.push(("bits", i(it.bit_width().unwrap_or(64) as usize)));
                o.push(("signed", J::B(false)));
            }
            ty::Float(ft) => {
                o.push(("k", s("float")));
                o.push(("bits", i(ft.bit_width() as usize)));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(inner, env);
                o.push(("to", i(x)));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(inner, env);
                o.push(("to", i(x)));
            }
            ty::Array(e, n) => {
                o.push(("k", s("array")));
                let x = self.ty(e, env);
                o.push(("to", i(x)));
                o.push(("len", match n.try_to_target_usize(tcx) { Some(v) => J::I(v as i128), None => J::Null }));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let x = self.ty(e, env);
                o.push(("to", i(x)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|e| i(self.ty(e, env))).collect();
                o.push(("elems", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path_of(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("akind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let av: Vec<J> = args.types().map(|e| i(self.ty(e, env))).collect();
                o.push(("args", J::A(av)));
                if def.did().is_local() {
                    o.push(("vis", s(format!("{:?}", tcx.visibility(def.did())))));
                }
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(tcx, args);
                        let fty = tcx
                            .try_normalize_erasing_regions(env, fty)
                            .unwrap_or_else(|_| tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip());
                        let x = self.ty(fty, env);
                        let vis = match f.vis {
                            ty::Visibility::Public => "pub".to_string(),
                            ty::Visibility::Restricted(d) => path_of(tcx, d.into()),
                        };
                        fs.push(J::O(vec![("n", s(f.name.as_str())), ("t", i(x)), ("vis", s(vis))]));
                    }
                    let d = if def.is_enum() { let d = def.discriminant_for_variant(tcx, vi); sign_fix(d.val, d.ty) } else { 0 };
                    vs.push(J::O(vec![("n", s(v.name.as_str())), ("d", J::I(d)), ("fields", J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Closure(did, args) => {
                o.push(("k", s("closure")));
                let inst = Instance::new_raw(did, args);
                let f = self.func(inst, env_is_generic(args));
                o.push(("f", i(f)));
                let kind = args.as_closure().kind_ty().to_opt_closure_kind();
                o.push(("ckind", s(format!("{:?}", kind))));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|e| i(self.ty(e, env))).collect();
                o.push(("elems", J::A(up)));
            }
            ty::FnDef(did, args) => {
                o.push(("k", s("fndef")));
                let args = args.skip_binder();
                let f = self.callee(did, args, env).0;
                o.push(("f", f));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("trait", s(path_of(tcx, p))));
                }
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name.as_str())));
            }
            _ => o.push(("k", s("opaque"))),
        }
        self.types[id] = J::O(o);
        id
    }

    /// Resolve a callee; returns (function id or null, original path)
    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> (J, String) {
        let tcx = self.tcx;
        let orig = path_of(tcx, did);
        let generic = env_is_generic(args);
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            // constructor used as a function
            let inst = Instance::new_raw(did, args);
            let f = self.func(inst, generic);
            return (i(f), orig);
        }
        let args = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        match Instance::try_resolve(tcx, env, did, args) {
            Ok(Some(inst)) => {
                let g = env_is_generic(inst.args);
                let f = self.func(inst, g);
                (i(f), orig)
            }
            _ => {
                let inst = Instance::new_raw(did, args);
                let f = self.func_opaque(inst);
                (i(f), orig)
            }
        }
    }

    fn meta(&mut self, inst: Instance<'tcx>, generic: bool) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let did = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(path_of(tcx, did))));
        o.push(("local", J::B(did.is_local())));
        let dk = tcx.def_kind(did);
        o.push(("dk", s(format!("{:?}", dk))));
        let kind = match inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic(_) => "intrinsic".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Shim(k) => match k {
                ty::ShimKind::Clone(..) => "shim:clone".to_string(),
                ty::ShimKind::ClosureOnce { .. } => "shim:closure_once".to_string(),
                ty::ShimKind::FnPtr(..) => "shim:fnptr".to_string(),
                ty::ShimKind::DropGlue(..) => "shim:drop".to_string(),
                ty::ShimKind::Reify(..) => "shim:reify".to_string(),
                _ => "shim".to_string(),
            },
        };
        o.push(("kind", s(kind)));
        o.push(("generic", J::B(generic)));
        let env = if generic { TypingEnv::post_analysis(tcx, did) } else { TypingEnv::fully_monomorphized() };
        let av: Vec<J> = inst.args.types().map(|t| i(self.ty(t, env))).collect();
        o.push(("args", J::A(av)));
        if let Some(name) = tcx.opt_item_name(did) {
            o.push(("name", s(name.as_str())));
        }
        // closest non-closure owner
        let owner = tcx.typeck_root_def_id(did);
        if owner != did {
            o.push(("owner", s(path_of(tcx, owner))));
        }
        if matches!(dk, DefKind::AssocFn | DefKind::AssocConst { .. }) {
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", s(tystr(st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", s(path_of(tcx, tr.def_id))));
                    o.push(("impl_trait_ref", s(with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(format!("{}", tr)))))));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(im))));
            } else if let Some(t) = tcx.trait_of_assoc(did) {
                o.push(("trait", s(path_of(tcx, t))));
            }
        }
        if did.is_local() {
            o.push(("span", s(self.span(tcx.def_span(did)))));
            if !tcx.is_closure_like(did) {
                o.push(("vis", s(match tcx.visibility(did) {
                    ty::Visibility::Public => "pub".to_string(),
                    ty::Visibility::Restricted(d) => path_of(tcx, d.into()),
                })));
            }
        }
        o
    }

    fn func_opaque(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(k) = self.fnmap.get(&(inst, true)) {
            return *k;
        }
        let id = self.fns.len();
        self.fns.push(J::Null);
        self.fnmap.insert((inst, true), id);
        let mut m = self.meta(inst, true);
        m.push(("unresolved", J::B(true)));
        self.fns[id] = J::O(m);
        id
    }

    fn func(&mut self, inst: Instance<'tcx>, generic: bool) -> usize {
        if let Some(k) = self.fnmap.get(&(inst, false)) {
            return *k;
        }
        let id = self.fns.len();
        self.fns.push(J::Null);
        self.fnmap.insert((inst, false), id);
        self.queue.push_back((id, inst, generic));
        id
    }

    fn run_queue(&mut self) {
        while let Some((id, inst, generic)) = self.queue.pop_front() {
            let mut m = self.meta(inst, generic);
            let did = inst.def_id();
            let tcx = self.tcx;
            let want = match inst.def {
                InstanceKind::Item(_) => {
                    if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
                        // record what the constructor builds
                        false
                    } else if did.is_local() {
                        true
                    } else {
                        let p = path_of(tcx, did);
                        let p2 = p.trim_start_matches('<');
                        let by_path = EXT_BODIES.iter().any(|e| p2.contains(e))
                            || self.in_ext_module(did);
                        by_path && tcx.is_mir_available(did)
                    }
                }
                _ => false,
            };
            if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
                let env = if generic { TypingEnv::post_analysis(tcx, did) } else { TypingEnv::fully_monomorphized() };
                let fnty = inst.ty(tcx, env);
                let sig = fnty.fn_sig(tcx).skip_binder();
                let r = self.ty(sig.output(), env);
                m.push(("ctor_ty", i(r)));
                let p = tcx.parent(did);
                let vi = match tcx.def_kind(p) {
                    DefKind::Variant => {
                        let adt = tcx.adt_def(tcx.parent(p));
                        adt.variant_index_with_id(p).as_usize()
                    }
                    _ => 0,
                };
                m.push(("ctor_variant", i(vi)));
            }
            if want && did.is_local() && matches!(tcx.def_kind(did), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                m.push(("const_item", J::B(true)));
            } else if want {
                let env = if generic { TypingEnv::post_analysis(tcx, did) } else { TypingEnv::fully_monomorphized() };
                let body: &'tcx Body<'tcx> = tcx.instance_mir(inst.def);
                let body: Body<'tcx> = if generic {
                    tcx.try_instantiate_and_normalize_erasing_regions(inst.args, env, ty::EarlyBinder::bind(tcx, body.clone()))
                        .unwrap_or_else(|_| body.clone())
                } else {
                    inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body.clone()))
                };
                let b = self.body(&body, env);
                m.push(("body", b));
            }
            self.fns[id] = J::O(m);
        }
    }

    fn in_ext_module(&self, did: DefId) -> bool {
        // e.g. impls whose printed path starts with '<': use the def path of the parent module
        let tcx = self.tcx;
        let krate = tcx.crate_name(did.krate);
        let dp = format!("{}{}", krate, tcx.def_path(did).to_string_no_crate_verbose());
        EXT_BODIES.iter().any(|e| dp.starts_with(e))
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let locals: Vec<J> = b.local_decls.iter().map(|l| i(self.ty(l.ty, env))).collect();
        let mut names: Vec<J> = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(&p, b, env)]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = (&bx.0, &bx.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), self.place(p, b, env), self.rvalue(r, b, env), s(sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("setd"), self.place(place, b, env), i(variant_index.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(b, self.tcx);
                    let tid = self.ty(dty, env);
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        let val = sign_fix(val, dty);
                        v.push(J::A(vec![J::I(val), i(bb.as_usize())]));
                    }
                    J::A(vec![s("switch"), self.operand(discr, b, env), i(tid), J::A(v), i(targets.otherwise().as_usize()), s(sp)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![s("drop"), self.place(place, b, env), i(target.as_usize())])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.constant() {
                        Some(c) => match *c.const_.ty().kind() {
                            ty::FnDef(did, ga) => {
                                let ga = ga.skip_binder();
                                let (f, orig) = self.callee(did, ga, env);
                                J::O(vec![("f", f), ("orig", s(orig))])
                            }
                            _ => J::O(vec![("op", self.operand(func, b, env))]),
                        },
                        None => J::O(vec![("op", self.operand(func, b, env))]),
                    };
                    let av: Vec<J> = args.iter().map(|a| self.operand(&a.node, b, env)).collect();
                    let at: Vec<J> = args.iter().map(|a| { let t = a.node.ty(b, self.tcx); i(self.ty(t, env)) }).collect();
                    let dt = destination.ty(b, self.tcx).ty;
                    let dt = self.ty(dt, env);
                    J::A(vec![
                        s("call"), f, J::A(av), self.place(destination, b, env),
                        match target { Some(t) => i(t.as_usize()), None => J::Null }, s(sp), J::A(at), i(dt),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.operand(len, b, env), self.operand(index, b, env)]),
                        AssertKind::Overflow(op, l, r) => J::A(vec![s("overflow"), s(format!("{:?}", op)), self.operand(l, b, env), self.operand(r, b, env)]),
                        AssertKind::OverflowNeg(l) => J::A(vec![s("overflow"), s("Neg"), self.operand(l, b, env)]),
                        AssertKind::DivisionByZero(l) => J::A(vec![s("div0"), self.operand(l, b, env)]),
                        AssertKind::RemainderByZero(l) => J::A(vec![s("rem0"), self.operand(l, b, env)]),
                        x => J::A(vec![s("other"), s(format!("{:?}", x))]),
                    };
                    J::A(vec![s("assert"), self.operand(cond, b, env), J::B(*expected), m, i(target.as_usize()), s(sp)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                _ => J::A(vec![s("unsupported")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", term), ("c", J::B(bb.is_cleanup))]));
        }
        let spread = match b.spread_arg { Some(l) => i(l.as_usize()), None => J::Null };
        J::O(vec![("argc", i(b.arg_count)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)), ("spread", spread)])
    }

    fn place(&mut self, p: &Place<'tcx>, _b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![i(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), i(f.as_usize()), i(self.ty(t, env))]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), i(offset as usize), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), i(from as usize), i(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("v"), i(vi.as_usize())]),
                _ => s("?"),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, b, env)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, b, env)]),
            Operand::Constant(c) => self.constant(c, env),
            Operand::RuntimeChecks(_) => J::A(vec![s("k"), J::O(vec![("int", J::I(0))]), J::Null]),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let tid = self.ty(t, env);
        let mut name = J::Null;
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                name = s(path_of(self.tcx, u.def));
            }
        }
        let v = match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => self.cval(v, t, env),
            Err(_) => J::O(vec![("unev", s(format!("{:?}", c.const_)))]),
        };
        J::A(vec![s("k"), v, i(tid), name])
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => match *t.kind() {
                ty::FnDef(did, ga) => {
                    let ga = ga.skip_binder();
                    let (f, orig) = self.callee(did, ga, env);
                    J::O(vec![("fn", f), ("orig", s(orig))])
                }
                _ => J::O(vec![("zst", J::B(true))]),
            },
            ConstValue::Scalar(sc) => self.scalar(sc, t, env, 0),
            ConstValue::Slice { alloc_id, meta } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                match t.builtin_deref(true).map(|x| x.kind()) {
                    Some(ty::Str) => J::O(vec![("str", s(String::from_utf8_lossy(bytes).into_owned()))]),
                    _ => J::O(vec![("bytes", J::A(bytes.iter().map(|x| J::I(*x as i128)).collect()))]),
                }
            }
            ConstValue::Indirect { alloc_id, offset } => self.decode(alloc_id, offset, t, env, 0),
        }
    }

    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match sc {
            Scalar::Int(n) => {
                match *t.kind() {
                    ty::Adt(..) | ty::Tuple(..) | ty::Array(..) | ty::Closure(..) => {
                        // wrapper around a scalar: go through an allocation-free decode
                        self.scalar_adt(n.to_bits(n.size()), n.size(), t, env, depth)
                    }
                    _ => J::O(vec![("int", J::I(sign_fix(n.to_bits(n.size()), t)))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                self.pointer(prov.alloc_id(), off, t, env, depth, tcx)
            }
        }
    }

    fn scalar_adt(&mut self, bits: u128, size: Size, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        // Build a temporary byte image and decode by layout
        let bytes: Vec<u8> = bits.to_le_bytes()[..size.bytes() as usize].to_vec();
        self.decode_bytes(&bytes, 0, t, env, depth)
    }

    fn decode_bytes(&mut self, bytes: &[u8], off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let lay = match tcx.layout_of(env.as_query_input(t)) {
            Ok(l) => l,
            Err(_) => return J::O(vec![("opaque", s("layout"))]),
        };
        let rd = |o: u64, sz: u64| -> u128 {
            let mut v = [0u8; 16];
            for k in 0..sz as usize {
                v[k] = *bytes.get(o as usize + k).unwrap_or(&0);
            }
            u128::from_le_bytes(v)
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                J::O(vec![("int", J::I(sign_fix(rd(off, lay.size.bytes()), t)))])
            }
            ty::Adt(def, args) if !def.is_union() => {
                let cx = ty::layout::LayoutCx::new(tcx, env);
                let vi = match &lay.variants {
                    Variants::Empty => return J::O(vec![("opaque", s("empty"))]),
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let toff = off + lay.fields.offset(tag_field.as_usize()).bytes();
                        let tsz = tag.size(&cx).bytes();
                        let tv = rd(toff, tsz);
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                for (vi, d) in def.discriminants(tcx) {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    if d.val & mask == tv {
                                        r = Some(vi);
                                    }
                                }
                                match r { Some(v) => v, None => return J::O(vec![("opaque", s("tag"))]) }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let rel = tv.wrapping_sub(*niche_start) & mask;
                                let st = niche_variants.start.as_usize() as u128;
                                let en = niche_variants.last.as_usize() as u128;
                                if rel <= en - st {
                                    rustc_abi::VariantIdx::from_usize((st + rel) as usize)
                                } else {
                                    *untagged_variant
                                }
                            }
                        }
                    }
                };
                let vl = lay.for_variant(&cx, vi);
                let mut fs = vec![];
                for (k, f) in def.variant(vi).fields.iter().enumerate() {
                    let fty = match tcx.try_normalize_erasing_regions(env, f.ty(tcx, args)) { Ok(x) => x, Err(_) => return J::O(vec![("opaque", s("norm"))]) };
                    let fo = vl.fields.offset(k).bytes();
                    fs.push(self.decode_bytes(bytes, off + fo, fty, env, depth + 1));
                }
                let tid = self.ty(t, env);
                J::O(vec![("adt", i(tid)), ("v", i(vi.as_usize())), ("fields", J::A(fs))])
            }
            ty::Tuple(ts) => {
                let mut fs = vec![];
                for (k, e) in ts.iter().enumerate() {
                    fs.push(self.decode_bytes(bytes, off + lay.fields.offset(k).bytes(), e, env, depth + 1));
                }
                J::O(vec![("tuple", J::A(fs))])
            }
            ty::Array(e, _) => {
                let (n, stride) = match lay.fields { FieldsShape::Array { stride, count } => (count, stride.bytes()), _ => (0, 0) };
                let mut fs = vec![];
                for k in 0..n {
                    fs.push(self.decode_bytes(bytes, off + k * stride, e, env, depth + 1));
                }
                J::O(vec![("array", J::A(fs))])
            }
            _ => J::O(vec![("opaque", s(tystr(t)))]),
        }
    }

    fn pointer(&mut self, id: AllocId, off: Size, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize, tcx: TyCtxt<'tcx>) -> J {
        match tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => {
                let f = self.func(instance, false);
                J::O(vec![("fn", i(f))])
            }
            GlobalAlloc::Static(d) => J::O(vec![("static", s(path_of(tcx, d)))]),
            GlobalAlloc::Memory(_) => match t.builtin_deref(true) {
                Some(inner) if inner.is_sized(tcx, env) => {
                    let v = self.decode(id, off, inner, env, depth + 1);
                    let tid = self.ty(inner, env);
                    J::O(vec![("ref", v), ("to", i(tid))])
                }
                _ => J::O(vec![("opaque", s("ptr"))]),
            },
            _ => J::O(vec![("opaque", s("alloc"))]),
        }
    }

    fn decode(&mut self, id: AllocId, off: Size, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::O(vec![("opaque", s("deep"))]);
        }
        let a = match tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => a,
            _ => return J::O(vec![("opaque", s("alloc"))]),
        };
        let lay = match tcx.layout_of(env.as_query_input(t)) {
            Ok(l) => l,
            Err(_) => return J::O(vec![("opaque", s("layout"))]),
        };
        let cx = ty::layout::LayoutCx::new(tcx, env);
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                match a.inner().read_scalar(&tcx, alloc_range(off, lay.size), false) {
                    Ok(Scalar::Int(n)) => J::O(vec![("int", J::I(sign_fix(n.to_bits(n.size()), t)))]),
                    _ => J::O(vec![("opaque", s("uninit"))]),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let ps = tcx.data_layout.pointer_size();
                let sc = a.inner().read_scalar(&tcx, alloc_range(off, ps), true);
                let Ok(Scalar::Ptr(p, _)) = sc else { return J::O(vec![("opaque", s("ptr"))]) };
                let (prov, po) = p.into_raw_parts();
                match *inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let n = match a.inner().read_scalar(&tcx, alloc_range(off + ps, ps), false) {
                            Ok(Scalar::Int(n)) => n.to_bits(n.size()) as u64,
                            _ => return J::O(vec![("opaque", s("len"))]),
                        };
                        let GlobalAlloc::Memory(ta) = tcx.global_alloc(prov.alloc_id()) else { return J::O(vec![("opaque", s("alloc"))]) };
                        if let ty::Slice(e) = *inner.kind() {
                            let el = match tcx.layout_of(env.as_query_input(e)) { Ok(l) => l.size, Err(_) => return J::O(vec![("opaque", s("layout"))]) };
                            let mut v = vec![];
                            for k in 0..n {
                                v.push(self.decode(prov.alloc_id(), po + el * k, e, env, depth + 1));
                            }
                            let tid = self.ty(inner, env);
                            J::O(vec![("ref", J::O(vec![("array", J::A(v))])), ("to", i(tid))])
                        } else {
                            let b = ta.inner().inspect_with_uninit_and_ptr_outside_interpreter(po.bytes() as usize..(po.bytes() + n) as usize);
                            J::O(vec![("str", s(String::from_utf8_lossy(b).into_owned()))])
                        }
                    }
                    _ => self.pointer(prov.alloc_id(), po, t, env, depth, tcx),
                }
            }
            ty::FnPtr(..) => {
                let ps = tcx.data_layout.pointer_size();
                match a.inner().read_scalar(&tcx, alloc_range(off, ps), true) {
                    Ok(Scalar::Ptr(p, _)) => {
                        let (prov, po) = p.into_raw_parts();
                        self.pointer(prov.alloc_id(), po, t, env, depth, tcx)
                    }
                    _ => J::O(vec![("opaque", s("fnptr"))]),
                }
            }
            ty::Adt(def, args) if !def.is_union() => {
                let rd = |o: Size, sz: Size| -> Option<u128> {
                    match a.inner().read_scalar(&tcx, alloc_range(o, sz), sz == tcx.data_layout.pointer_size()) {
                        Ok(Scalar::Int(n)) => Some(n.to_bits(n.size())),
                        _ => None,
                    }
                };
                let vi = match &lay.variants {
                    Variants::Empty => return J::O(vec![("opaque", s("empty"))]),
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let toff = off + lay.fields.offset(tag_field.as_usize());
                        let tsz = tag.size(&cx);
                        let tv = rd(toff, tsz);
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                let mask = if tsz.bytes() >= 16 { u128::MAX } else { (1u128 << tsz.bits()) - 1 };
                                for (vi, d) in def.discriminants(tcx) {
                                    if Some(d.val & mask) == tv {
                                        r = Some(vi);
                                    }
                                }
                                match r { Some(v) => v, None => return J::O(vec![("opaque", s("tag"))]) }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match tv {
                                None => *untagged_variant,
                                Some(tv) => {
                                    let mask = if tsz.bytes() >= 16 { u128::MAX } else { (1u128 << tsz.bits()) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let st = niche_variants.start.as_usize() as u128;
                                    let en = niche_variants.last.as_usize() as u128;
                                    if rel <= en - st { rustc_abi::VariantIdx::from_usize((st + rel) as usize) } else { *untagged_variant }
                                }
                            },
                        }
                    }
                };
                let vl = lay.for_variant(&cx, vi);
                let mut fs = vec![];
                for (k, f) in def.variant(vi).fields.iter().enumerate() {
                    let fty = match tcx.try_normalize_erasing_regions(env, f.ty(tcx, args)) { Ok(x) => x, Err(_) => return J::O(vec![("opaque", s("norm"))]) };
                    fs.push(self.decode(id, off + vl.fields.offset(k), fty, env, depth + 1));
                }
                let tid = self.ty(t, env);
                J::O(vec![("adt", i(tid)), ("v", i(vi.as_usize())), ("fields", J::A(fs))])
            }
            ty::Tuple(ts) => {
                let mut fs = vec![];
                for (k, e) in ts.iter().enumerate() {
                    fs.push(self.decode(id, off + lay.fields.offset(k), e, env, depth + 1));
                }
                J::O(vec![("tuple", J::A(fs))])
            }
            ty::Array(e, _) => {
                let (n, stride) = match lay.fields { FieldsShape::Array { stride, count } => (count, stride), _ => (0, Size::ZERO) };
                let mut fs = vec![];
                for k in 0..n {
                    fs.push(self.decode(id, off + stride * k, e, env, depth + 1));
                }
                J::O(vec![("array", J::A(fs))])
            }
            _ => J::O(vec![("opaque", s(tystr(t)))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, b, env)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                J::A(vec![s("repeat"), self.operand(o, b, env), match n { Some(n) => J::I(n as i128), None => J::Null }])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(p, b, env), J::B(matches!(bk, BorrowKind::Mut { .. }))]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("ref"), self.place(p, b, env), J::B(matches!(k, RawPtrKind::Mut))]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref*"), self.place(p, b, env), J::B(m.is_mut())]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(b, self.tcx);
                let f = self.ty(from, env);
                let t = self.ty(*t, env);
                let ks = format!("{:?}", k);
                let ks = ks.split(|c: char| c == ' ').next().unwrap_or("").to_string();
                J::A(vec![s("cast"), s(ks), self.operand(o, b, env), i(f), i(t)])
            }
            Rvalue::BinaryOp(op, bx) => {
                let lt = bx.0.ty(b, self.tcx);
                let lt = self.ty(lt, env);
                J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(&bx.0, b, env), self.operand(&bx.1, b, env), i(lt)])
            }
            Rvalue::UnaryOp(op, o) => {
                let lt = o.ty(b, self.tcx);
                let lt = self.ty(lt, env);
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(o, b, env), i(lt)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                let t = self.ty(t, env);
                J::A(vec![s("discr"), self.place(p, b, env), i(t)])
            }
            Rvalue::Aggregate(k, fs) => {
                let t = r.ty(b, self.tcx);
                let tid = self.ty(t, env);
                let v: Vec<J> = fs.iter().map(|o| self.operand(o, b, env)).collect();
                let (kind, vi) = match &**k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, vi, _, _, _) => ("adt", vi.as_usize()),
                    AggregateKind::Closure(..) => ("closure", 0),
                    _ => ("other", 0),
                };
                J::A(vec![s("agg"), s(kind), i(tid), i(vi), J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, b, env)])]),
            x => J::A(vec![s("unsupported"), s(format!("{:?}", x))]),
        }
    }
}

fn env_is_generic(args: ty::GenericArgsRef<'_>) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    args.has_param() || args.has_non_region_infer() || args.has_escaping_bound_vars()
}

fn sign_fix(v: u128, t: Ty<'_>) -> i128 {
    match t.kind() {
        ty::Int(it) => {
            let bits = it.bit_width().unwrap_or(64) as u32;
            let sh = 128 - bits;
            ((v << sh) as i128) >> sh
        }
        _ => v as i128,
    }
}

struct Dump {
    out: String,
}
impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), fns: vec![], fnmap: HashMap::new(), queue: VecDeque::new() };
        let mut roots = vec![];
        let mut consts = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let g = env_is_generic(args);
                    let inst = Instance::new_raw(d, args);
                    let id = cx.func(inst, g);
                    roots.push(i(id));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let g = tcx.generics_of(d).requires_monomorphization(tcx);
                    if !g {
                        consts.push(d);
                    }
                }
                _ => {}
            }
        }
        let mut cj = vec![];
        for d in consts {
            let env = TypingEnv::fully_monomorphized();
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            let tid = cx.ty(t, env);
            let v = match tcx.const_eval_poly(d) {
                Ok(v) => cx.cval(v, t, env),
                Err(_) => J::Null,
            };
            cj.push(J::O(vec![("path", s(path_of(tcx, d))), ("t", i(tid)), ("v", v), ("span", s(cx.span(tcx.def_span(d))))]));
        }
        // local ADTs (even those never mentioned in a body) and trait impls
        let mut adts = vec![];
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let tid = cx.ty(t, TypingEnv::post_analysis(tcx, d));
                    adts.push(i(tid));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_opt_trait_ref(d).unwrap().instantiate_identity().skip_norm_wip();
                    impls.push(J::O(vec![
                        ("trait", s(path_of(tcx, tr.def_id))),
                        ("self", s(tystr(tr.self_ty()))),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                    ]));
                }
                _ => {}
            }
        }
        cx.run_queue();
        let o = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("roots", J::A(roots)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("consts", J::A(cj)),
            ("types", J::A(std::mem::take(&mut cx.types))),
            ("fns", J::A(std::mem::take(&mut cx.fns))),
        ]);
        let mut out = String::new();
        o.write(&mut out);
        let mut f = std::fs::File::create(&self.out).expect("create dump");
        f.write_all(out.as_bytes()).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut real = "rustc".to_string();
    if args.len() > 1 && args[1].contains("rustc") {
        real = args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "klavier_core");
    match (is_target, std::env::var("KVDUMP_OUT").ok()) {
        (true, Some(out)) => {
            for a in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Coverflow-checks=on", "-Zub-checks=no", "-Awarnings"] {
                args.push(a.to_string());
            }
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump { out }))
        }
        _ => {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(&real).args(&args[1..]).exec();
            eprintln!("kvdump: cannot run {}: {}", real, e);
            std::process::ExitCode::FAILURE
        }
    }
}
