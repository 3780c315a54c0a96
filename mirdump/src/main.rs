//! rustc driver: dumps the type-checked MIR (phase `mir_promoted`: after type checking and match
//! lowering, before drop elaboration and any optimisation) of every body of one crate as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER; nothing of the analysed crate is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::BTreeMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON writer
enum J {
    Null,
    Bool(bool),
    Int(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::Int(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => write!(o, "{}", i).unwrap(),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    write!(o, "\"{}\":", k).unwrap();
                    x.w(o)
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    J::S(k.clone()).w(o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- dumper
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: BTreeMap<String, Ty<'tcx>>,
    todo: Vec<(String, Ty<'tcx>)>,
    adts: BTreeMap<String, DefId>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }
    // unique key of a body
    fn key(&self, d: DefId) -> String {
        let tcx = self.tcx;
        format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let k = t.to_string();
        if !self.tys.contains_key(&k) {
            self.tys.insert(k.clone(), t);
            self.todo.push((k.clone(), t));
        }
        J::S(k)
    }
    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::S(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        let _ = body;
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), J::Int(offset as _), J::Int(min_length as _), J::Bool(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sl"), J::Int(from as _), J::Int(to as _), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(name, v) => J::A(vec![
                    s("d"),
                    n(v.as_usize()),
                    name.map(|x| s(x.to_string())).unwrap_or(J::Null),
                ]),
                other => J::A(vec![s("?"), s(format!("{:?}", other))]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }
    fn alloc_json(&mut self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: Option<usize>) -> J {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(m)) => {
                let m = m.inner();
                let end = len.map(|l| off + l).unwrap_or(m.len());
                let b = m.inspect_with_uninit_and_ptr_outside_interpreter(off..end);
                let ptrs: Vec<J> = m
                    .provenance()
                    .ptrs()
                    .iter()
                    .map(|(o, p)| J::A(vec![n(o.bytes_usize()), s(format!("{:?}", p.alloc_id()))]))
                    .collect();
                J::O(vec![
                    ("bytes", J::A(b.iter().map(|x| J::Int(*x as i128)).collect())),
                    ("ptrs", J::A(ptrs)),
                ])
            }
            Some(GlobalAlloc::Static(d)) => J::O(vec![("static", s(self.key(d)))]),
            Some(GlobalAlloc::Function { instance, .. }) => J::O(vec![("fnptr", s(self.key(instance.def_id())))]),
            other => J::O(vec![("alloc", s(format!("{:?}", other)))]),
        }
    }
    fn cval(&mut self, v: &ConstValue, t: Ty<'tcx>) -> Vec<(&'static str, J)> {
        match v {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let signed = matches!(t.kind(), ty::Int(_));
                let val = if signed { i.size().sign_extend(bits) as i128 } else { bits as i128 };
                vec![("k", s("int")), ("v", J::Int(val))]
            }
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let a = self.alloc_json(prov.alloc_id(), 0, None);
                vec![("k", s("ptr")), ("off", n(off.bytes_usize())), ("mem", a)]
            }
            ConstValue::ZeroSized => vec![("k", s("zst"))],
            ConstValue::Slice { alloc_id, meta } => {
                let inner = match t.kind() {
                    ty::Ref(_, i, _) => *i,
                    _ => t,
                };
                if inner.is_str() {
                    if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(*alloc_id) {
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..*meta as usize);
                        return vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).into_owned()))];
                    }
                }
                let a = self.alloc_json(*alloc_id, 0, None);
                vec![("k", s("slice")), ("len", J::Int(*meta as _)), ("mem", a)]
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.alloc_json(*alloc_id, 0, None);
                vec![("k", s("mem")), ("off", n(offset.bytes_usize())), ("mem", a)]
            }
        }
    }
    fn fndef(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut ga = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                ga.push(self.ty(t))
            } else if let Some(c) = a.as_const() {
                ga.push(s(format!("const {}", c)))
            }
        }
        let mut o = vec![("k", s("fn")), ("path", s(self.path(d))), ("ga", J::A(ga))];
        if d.is_local() {
            o.push(("local", s(self.key(d))));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
            let r = i.def_id();
            if r != d {
                o.push(("res", s(self.path(r))));
                if r.is_local() {
                    o.push(("reslocal", s(self.key(r))));
                }
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        }
        o
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o = vec![("ty", self.ty(t))];
        match t.kind() {
            ty::FnDef(d, args) => {
                o.extend(self.fndef(env, *d, args.skip_binder()));
                return J::O(o);
            }
            _ => {}
        }
        match c.const_ {
            Const::Val(v, t) => o.extend(self.cval(&v, t)),
            Const::Unevaluated(u, t) => {
                if let Some(p) = u.promoted {
                    o.push(("k", s("promoted")));
                    o.push(("of", s(self.key(u.def))));
                    o.push(("idx", n(p.as_usize())));
                } else if u.def.is_local() {
                    o.push(("k", s("const")));
                    o.push(("of", s(self.key(u.def))));
                } else {
                    match c.const_.eval(self.tcx, env, c.span) {
                        Ok(v) => {
                            o.push(("path", s(self.path(u.def))));
                            o.extend(self.cval(&v, t))
                        }
                        Err(_) => {
                            o.push(("k", s("extconst")));
                            o.push(("path", s(self.path(u.def))));
                        }
                    }
                }
            }
            Const::Ty(t, _) => match c.const_.eval(self.tcx, env, c.span) {
                Ok(v) => o.extend(self.cval(&v, t)),
                Err(_) => {
                    o.push(("k", s("tyconst")));
                }
            },
        }
        J::O(o)
    }
    fn op(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(b, p);
                J::A(vec![s("cp"), p])
            }
            Operand::Move(p) => {
                let p = self.place(b, p);
                J::A(vec![s("mv"), p])
            }
            Operand::Constant(c) => {
                let c = self.konst(env, c);
                J::A(vec![s("c"), c])
            }
            other => J::A(vec![s("rt"), s(format!("{:?}", other))]),
        }
    }
    fn rv(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => {
                let o = self.op(b, env, o);
                J::A(vec![s("use"), o])
            }
            Rvalue::Repeat(o, c) => {
                let o = self.op(b, env, o);
                J::A(vec![s("rep"), o, s(format!("{}", c))])
            }
            Rvalue::Ref(_, k, p) => {
                let k = match k {
                    BorrowKind::Shared => "shr",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    _ => "other",
                };
                let p = self.place(b, p);
                J::A(vec![s("ref"), s(k), p])
            }
            Rvalue::RawPtr(_, p) => {
                let p = self.place(b, p);
                J::A(vec![s("ref"), s("raw"), p])
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.op(b, env, o);
                let k = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(k), o, t])
            }
            Rvalue::BinaryOp(op, ops) => {
                let x = self.op(b, env, &ops.0);
                let y = self.op(b, env, &ops.1);
                J::A(vec![s("bin"), s(format!("{:?}", op)), x, y])
            }
            Rvalue::UnaryOp(op, o) => {
                let x = self.op(b, env, o);
                J::A(vec![s("un"), s(format!("{:?}", op)), x])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(b, p);
                J::A(vec![s("disc"), p])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(b, p);
                J::A(vec![s("use"), J::A(vec![s("cp"), p])])
            }
            Rvalue::Aggregate(k, ops) => {
                let k = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let k = self.path(*d);
                        self.adts.insert(k, *d);
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            n(v.as_usize()),
                            t,
                            active.map(|a| n(a.as_usize())).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.key(*d))]),
                    other => J::A(vec![s("?"), s(format!("{:?}", other))]),
                };
                let ops = ops.iter().map(|o| self.op(b, env, o)).collect();
                J::A(vec![s("agg"), k, J::A(ops)])
            }
            other => J::A(vec![s("?"), s(format!("{:?}", other))]),
        }
    }
    fn body(&mut self, key: String, owner: LocalDefId, b: &Body<'tcx>) -> J {
        let env = TypingEnv::non_body_analysis(self.tcx, owner);
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in b.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            locals.push(J::A(vec![
                t,
                names.get(&i.as_usize()).map(|x| s(x.clone())).unwrap_or(J::Null),
            ]));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let loc = self.loc(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(b, &a.0);
                        let r = self.rv(b, env, &a.1);
                        st.push(J::A(vec![s("="), p, r, loc]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(b, place);
                        st.push(J::A(vec![s("setdisc"), p, n(variant_index.as_usize()), loc]));
                    }
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(l.as_usize())])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let loc = self.loc(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(b, env, discr);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    let v = targets
                        .iter()
                        .map(|(v, bb)| J::A(vec![J::Int(v as i128), n(bb.as_usize())]))
                        .collect();
                    J::A(vec![s("switch"), o, J::A(v), n(targets.otherwise().as_usize()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { target, place, .. } => {
                    let p = self.place(b, place);
                    J::A(vec![s("drop"), p, n(target.as_usize())])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(b, env, func);
                    let a = args.iter().map(|x| self.op(b, env, &x.node)).collect();
                    let d = self.place(b, destination);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(|t| n(t.as_usize())).unwrap_or(J::Null),
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.op(b, env, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    J::A(vec![s("assert"), c, J::Bool(*expected), n(target.as_usize()), s(m)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                other => J::A(vec![s("?"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("l", loc),
                ("c", J::Bool(bb.is_cleanup)),
            ]));
        }
        let loc = self.loc(b.span);
        J::O(vec![
            ("key", s(key)),
            ("path", s(self.path(owner.to_def_id()))),
            ("kind", s(format!("{:?}", self.tcx.def_kind(owner)))),
            ("loc", loc),
            ("derived", J::Bool(self.tcx.opt_parent(owner.to_def_id()).map_or(false, |p| matches!(self.tcx.def_kind(p), DefKind::Impl { .. }) && self.tcx.is_builtin_derived(p)))),
            ("argc", n(b.arg_count)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }
    fn tydef(&mut self, t: Ty<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            ty::Adt(d, args) => {
                let k = self.path(d.did());
                self.adts.insert(k, d.did());
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(d.did()))));
                let mut v = vec![];
                for a in args.types() {
                    v.push(self.ty(a));
                }
                o.push(("args", J::A(v)));
            }
            ty::Ref(_, i, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                let i = self.ty(*i);
                o.push(("to", i));
            }
            ty::RawPtr(i, _) => {
                o.push(("k", s("ptr")));
                let i = self.ty(*i);
                o.push(("to", i));
            }
            ty::Slice(i) => {
                o.push(("k", s("slice")));
                let i = self.ty(*i);
                o.push(("of", i));
            }
            ty::Array(i, c) => {
                o.push(("k", s("array")));
                let i = self.ty(*i);
                o.push(("of", i));
                o.push(("len", s(format!("{}", c))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("key", s(self.key(*d))));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let v = self.fndef(TypingEnv::fully_monomorphized(), *d, args.skip_binder());
                o.push(("fn", J::O(v)));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("prim"))),
        }
        J::O(o)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let _g1 = rustc_middle::ty::print::with_no_trimmed_paths!({
            let mut d = D { tcx, tys: BTreeMap::new(), todo: vec![], adts: BTreeMap::new() };
            let mut bodies = vec![];
            for owner in tcx.hir_body_owners() {
                if matches!(tcx.def_kind(owner), DefKind::AnonConst) {
                    continue;
                }
                let (b, p) = tcx.mir_promoted(owner);
                let b: Body<'tcx> = b.borrow().clone();
                let p = p.borrow().clone();
                let key = d.key(owner.to_def_id());
                for (i, pb) in p.iter_enumerated() {
                    bodies.push(d.body(format!("{}#promoted{}", key, i.as_usize()), owner, pb));
                }
                bodies.push(d.body(key, owner, &b));
            }
            let mut tys = vec![];
            while let Some((k, t)) = d.todo.pop() {
                let j = d.tydef(t);
                tys.push((k, j));
            }
            let mut adts = vec![];
            for (_, a) in d.adts.clone() {
                let def = tcx.adt_def(a);
                let mut vs = vec![];
                let discs: Vec<i128> = if def.is_enum() {
                    def.discriminants(tcx).map(|(_, x)| x.val as i128).collect()
                } else {
                    vec![0]
                };
                for (i, v) in def.variants().iter().enumerate() {
                    vs.push(J::O(vec![
                        ("name", s(v.name.to_string())),
                        ("d", J::Int(*discs.get(i).unwrap_or(&0))),
                        ("fields", J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect())),
                    ]));
                }
                let k = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                adts.push((
                    d.path(a),
                    J::O(vec![("kind", s(k)), ("local", J::Bool(a.is_local())), ("variants", J::A(vs))]),
                ));
            }
            let j = J::O(vec![
                ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
                ("bodies", J::A(bodies)),
                ("types", J::M(tys)),
                ("adts", J::M(adts)),
            ]);
            let mut o = String::new();
            j.w(&mut o);
            std::fs::write(&out, o).unwrap();
        });
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
