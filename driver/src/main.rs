#![feature(rustc_private)]
#![allow(clippy::all)]
//! rustc driver that dumps the resolved program (types, impls, MIR) of the crate being compiled
//! as JSON.  Used as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...].
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

// ------------------------------------------------------------------ JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn esc(o: &mut String, t: &str) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(t) => esc(o, t),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// unique stable-ish id of a local or foreign definition
    fn id(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        format!(
            "{}{}",
            krate,
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        J::A(vec![s(f), J::I(lo.line as i128), J::I(lo.col.0 as i128)])
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        s(self.tystr(t))
    }

    // ---------------------------------------------------------- constants
    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let r = AllocRange {
                    start: rustc_abi::Size::from_bytes(off),
                    size: rustc_abi::Size::from_bytes(len),
                };
                if off + len > a.len() as u64 {
                    return None;
                }
                a.get_bytes_strip_provenance(&self.tcx, r)
                    .ok()
                    .map(|b| b.to_vec())
            }
            _ => None,
        }
    }
    fn hex(b: &[u8]) -> String {
        let mut o = String::new();
        for x in b {
            let _ = write!(o, "{:02x}", x);
        }
        o
    }
    fn is_u8_array(&self, t: Ty<'tcx>) -> Option<u64> {
        match t.kind() {
            ty::Array(e, n) if *e == self.tcx.types.u8 => n.try_to_target_usize(self.tcx),
            _ => None,
        }
    }
    /// bytes behind a wide pointer stored in memory at (id, off)
    fn wide_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64) -> Option<Vec<u8>> {
        use rustc_middle::mir::interpret::GlobalAlloc;
        let GlobalAlloc::Memory(a) = self.tcx.try_get_global_alloc(id)? else { return None };
        let a = a.inner();
        let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
        let o = off as usize;
        if raw.len() < o + 16 {
            return None;
        }
        let mut addr = [0u8; 8];
        addr.copy_from_slice(&raw[o..o + 8]);
        let mut len = [0u8; 8];
        len.copy_from_slice(&raw[o + 8..o + 16]);
        let prov = a.provenance().ptrs().iter().find(|(k, _)| k.bytes() == off)?.1;
        self.alloc_bytes(prov.alloc_id(), u64::from_le_bytes(addr), u64::from_le_bytes(len))
    }
    fn const_val(&self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let val: i128 = if t.is_signed() {
                    let sh = 128 - i.size().bits();
                    ((bits << sh) as i128) >> sh
                } else {
                    bits as i128
                };
                if t.is_bool() {
                    o.push(("bool", J::B(bits != 0)));
                } else {
                    o.push(("int", J::I(val)));
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let Some(n) = self.is_u8_array(*inner) {
                        if let Some(b) = self.alloc_bytes(id, off.bytes(), n) {
                            o.push(("bytes", s(Self::hex(&b))));
                            return;
                        }
                    }
                    // a reference to a slice reference (promoted format args etc.)
                }
                o.push(("ptr", J::B(true)));
            }
            ConstValue::ZeroSized => {
                o.push(("zst", J::B(true)));
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                            return;
                        }
                    }
                    o.push(("bytes", s(Self::hex(&b))));
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(n) = self.is_u8_array(t) {
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), n) {
                        o.push(("bytes", s(Self::hex(&b))));
                        return;
                    }
                }
                if let ty::Ref(_, inner, _) = t.kind() {
                    let is_str = inner.is_str();
                    let is_bytes = matches!(inner.kind(), ty::Slice(e) if *e == self.tcx.types.u8);
                    if is_str || is_bytes {
                        if let Some(b) = self.wide_bytes(alloc_id, offset.bytes()) {
                            if is_str {
                                o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                            } else {
                                o.push(("bytes", s(Self::hex(&b))));
                            }
                            return;
                        }
                    }
                }
                o.push(("indirect", J::B(true)));
            }
        }
    }
    fn konst(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![("k", s("const")), ("ty", self.ty(t))];
        match t.kind() {
            ty::FnDef(d, args) => {
                o.push(("fn", self.callee(*d, args.skip_binder(), env)));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_usize() as i128)));
                o.push(("owner", s(self.id(u.def))));
            } else {
                o.push(("cpath", s(self.path(u.def))));
                o.push(("cid", s(self.id(u.def))));
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push(("tyconst", s(format!("{}", ct))));
        }
        if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
            self.const_val(v, t, &mut o);
        }
        J::O(o)
    }

    // ---------------------------------------------------------- callee
    fn callee(
        &self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: TypingEnv<'tcx>,
    ) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(self.path(d))),
            ("id", s(self.id(d))),
            (
                "args",
                J::A(
                    args.iter()
                        .map(|a| s(with_no_trimmed_paths!(a.to_string())))
                        .collect(),
                ),
            ),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            if let Some(t) = args.types().next() {
                o.push(("self", self.ty(t)));
            }
        } else if let Some(imp) = tcx.impl_of_assoc(d) {
            o.push((
                "self",
                self.ty(tcx.type_of(imp).instantiate(tcx, args).skip_norm_wip()),
            ));
        }
        o.push(("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())));
        let args_e = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args_e) {
            let rd = inst.def_id();
            if rd != d {
                o.push(("rpath", s(self.path(rd))));
                o.push(("rid", s(self.id(rd))));
                o.push((
                    "rargs",
                    J::A(
                        inst.args
                            .iter()
                            .map(|a| s(with_no_trimmed_paths!(a.to_string())))
                            .collect(),
                    ),
                ));
            }
            o.push(("resolved", J::B(true)));
            if let ty::InstanceKind::Virtual(..) = inst.def {
                o.push(("virtual", J::B(true)));
            }
        }
        J::O(o)
    }

    // ---------------------------------------------------------- places
    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, _) => {
                    let mut owner = String::new();
                    let mut name = format!("{}", f.as_usize());
                    match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_struct() || def.is_union() || def.is_enum() {
                                let v = def.variant(vi);
                                name = v.fields[f].name.to_string();
                            }
                            owner = self.path(def.did());
                        }
                        ty::Closure(d, _) => {
                            owner = format!("closure:{}", self.id(*d));
                        }
                        ty::Tuple(_) => owner = "tuple".into(),
                        _ => {}
                    }
                    J::A(vec![s("field"), J::I(f.as_usize() as i128), s(name), s(owner)])
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => n.map(|x| x.to_string()).unwrap_or_default(),
                    };
                    let owner = match pt.ty.kind() {
                        ty::Adt(def, _) => self.path(def.did()),
                        _ => String::new(),
                    };
                    J::A(vec![s("variant"), J::I(v.as_usize() as i128), s(nm), s(owner)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("index"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => J::A(vec![
                    s("cindex"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("subslice"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                _ => J::A(vec![s("other"), s(format!("{:?}", e))]),
            };
            pt = pt.projection_ty(tcx, e);
            proj.push(j);
        }
        J::O(vec![
            ("l", J::I(p.local.as_usize() as i128)),
            ("p", J::A(proj)),
        ])
    }
    fn operand(&self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("pl", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("pl", self.place(p, body))]),
            Operand::Constant(c) => self.konst(c, env),
            #[allow(unreachable_patterns)]
            o => J::O(vec![("k", s("rtcheck")), ("d", s(format!("{:?}", o)))]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(o, body, env);
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", op(o))]),
            Rvalue::Repeat(o, n) => J::O(vec![
                ("k", s("repeat")),
                ("o", op(o)),
                ("n", s(format!("{}", n))),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("pl", self.place(p, body)),
            ]),
            Rvalue::RawPtr(_, p) => {
                J::O(vec![("k", s("rawptr")), ("pl", self.place(p, body))])
            }
            Rvalue::Cast(ck, o, t) => J::O(vec![
                ("k", s("cast")),
                ("ck", s(format!("{:?}", ck))),
                ("o", op(o)),
                ("ty", self.ty(*t)),
                ("from", self.ty(o.ty(body, self.tcx))),
            ]),
            Rvalue::BinaryOp(b, ops) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{:?}", b))),
                ("a", op(&ops.0)),
                ("b", op(&ops.1)),
                ("ty", self.ty(ops.0.ty(body, self.tcx))),
            ]),
            Rvalue::UnaryOp(u, o) => J::O(vec![
                ("k", s("un")),
                ("op", s(format!("{:?}", u))),
                ("a", op(o)),
                ("ty", self.ty(o.ty(body, self.tcx))),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                J::O(vec![
                    ("k", s("discr")),
                    ("pl", self.place(p, body)),
                    ("ty", self.ty(t)),
                    (
                        "variants",
                        match t.kind() {
                            ty::Adt(d, _) if d.is_enum() => J::A(
                                d.discriminants(self.tcx)
                                    .map(|(i, disc)| {
                                        J::A(vec![
                                            J::I(disc.val as i128),
                                            s(d.variant(i).name.to_string()),
                                        ])
                                    })
                                    .collect(),
                            ),
                            _ => J::Null,
                        },
                    ),
                ])
            }
            Rvalue::Aggregate(ak, ops) => {
                let mut o = vec![("k", s("agg"))];
                match &**ak {
                    AggregateKind::Array(t) => {
                        o.push(("ak", s("array")));
                        o.push(("ty", self.ty(*t)));
                    }
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        o.push(("ak", s("adt")));
                        o.push(("adt", s(self.path(*d))));
                        o.push(("variant", s(def.variant(*vi).name.to_string())));
                        o.push(("enum", J::B(def.is_enum())));
                        o.push((
                            "fields",
                            J::A(
                                def.variant(*vi)
                                    .fields
                                    .iter()
                                    .map(|f| s(f.name.to_string()))
                                    .collect(),
                            ),
                        ));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("ak", s("closure")));
                        o.push(("closure", s(self.id(*d))));
                    }
                    x => {
                        o.push(("ak", s("other")));
                        o.push(("d", s(format!("{:?}", x))));
                    }
                }
                o.push(("ops", J::A(ops.iter().map(|x| op(x)).collect())));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => {
                J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("pl", self.place(p, body))]))])
            }
            x => J::O(vec![("k", s("other")), ("d", s(format!("{:?}", x)))]),
        }
    }

    fn body(&self, id: String, def: DefId, body: &Body<'tcx>, kind: &str, promoted: Option<usize>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut names: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(&p, body)]));
            }
        }
        let locals = body
            .local_decls
            .iter()
            .map(|l| self.ty(l.ty))
            .collect::<Vec<_>>();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for st in &data.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        stmts.push(J::O(vec![
                            ("k", s("assign")),
                            ("pl", self.place(p, body)),
                            ("rv", self.rvalue(r, body, env)),
                            ("sp", self.span(st.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        stmts.push(J::O(vec![
                            ("k", s("setdiscr")),
                            ("pl", self.place(place, body)),
                            ("v", J::I(variant_index.as_usize() as i128)),
                            ("sp", self.span(st.source_info.span)),
                        ]));
                    }
                    StatementKind::Intrinsic(i) => {
                        stmts.push(J::O(vec![("k", s("intrinsic")), ("d", s(format!("{:?}", i)))]));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let bbj = |b: BasicBlock| J::I(b.as_usize() as i128);
            let mut o: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", bbj(*target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    o.push(("o", self.operand(discr, body, env)));
                    o.push(("ty", self.ty(discr.ty(body, tcx))));
                    o.push((
                        "targets",
                        J::A(
                            targets
                                .iter()
                                .map(|(v, b)| J::A(vec![J::I(v as i128), bbj(b)]))
                                .collect(),
                        ),
                    ));
                    o.push(("otherwise", bbj(targets.otherwise())));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume => o.push(("k", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("k", s("resume"))),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("k", s("drop")));
                    o.push(("pl", self.place(place, body)));
                    o.push(("ty", self.ty(place.ty(body, tcx).ty)));
                    o.push(("t", bbj(*target)));
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    o.push(("k", s("call")));
                    o.push(("f", self.operand(func, body, env)));
                    o.push((
                        "args",
                        J::A(
                            args.iter()
                                .map(|a| self.operand(&a.node, body, env))
                                .collect(),
                        ),
                    ));
                    o.push((
                        "argtys",
                        J::A(
                            args.iter()
                                .map(|a| self.ty(a.node.ty(body, tcx)))
                                .collect(),
                        ),
                    ));
                    o.push(("dest", self.place(destination, body)));
                    o.push(("destty", self.ty(destination.ty(body, tcx).ty)));
                    o.push(("t", target.map(bbj).unwrap_or(J::Null)));
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => {
                    o.push(("k", s("assert")));
                    o.push(("o", self.operand(cond, body, env)));
                    o.push(("exp", J::B(*expected)));
                    let (mk, mops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![
                                self.operand(len, body, env),
                                self.operand(index, body, env),
                            ],
                        ),
                        AssertKind::Overflow(b, x, y) => (
                            format!("overflow:{:?}", b),
                            vec![self.operand(x, body, env), self.operand(y, body, env)],
                        ),
                        AssertKind::OverflowNeg(x) => {
                            ("overflow:Neg".into(), vec![self.operand(x, body, env)])
                        }
                        AssertKind::DivisionByZero(x) => {
                            ("divzero".into(), vec![self.operand(x, body, env)])
                        }
                        AssertKind::RemainderByZero(x) => {
                            ("remzero".into(), vec![self.operand(x, body, env)])
                        }
                        _ => ("other".into(), vec![]),
                    };
                    o.push(("mk", s(mk)));
                    o.push(("mops", J::A(mops)));
                    o.push(("t", bbj(*target)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", bbj(*real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", bbj(*real_target)));
                }
                x => {
                    o.push(("k", s("other")));
                    o.push(("d", s(format!("{:?}", x))));
                }
            }
            o.push(("sp", self.span(t.source_info.span)));
            blocks.push(J::O(vec![
                ("s", J::A(stmts)),
                ("t", J::O(o)),
                ("cleanup", J::B(data.is_cleanup)),
            ]));
        }
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", s(id)),
            ("path", s(self.path(def))),
            ("kind", s(kind)),
            ("span", self.span(tcx.def_span(def))),
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ];
        if let Some(p) = promoted {
            o.push(("promoted", J::I(p as i128)));
        }
        {
            let base = tcx.typeck_root_def_id(def);
            let g = tcx.generics_of(base);
            let mut v = vec![];
            for i in 0..g.count() {
                v.push(s(g.param_at(i, tcx).name.to_string()));
            }
            o.push(("generics", J::A(v)));
        }
        if promoted.is_none() {
            o.push((
                "name",
                s(tcx.opt_item_name(def).map(|n| n.to_string()).unwrap_or_default()),
            ));
            if tcx.is_closure_like(def) {
                o.push(("parent", s(self.id(tcx.parent(def)))));
            } else {
                let vis = tcx.visibility(def);
                o.push(("pub", J::B(vis.is_public())));
                if let Some(l) = def.as_local() {
                    let ev = tcx.effective_visibilities(());
                    o.push(("exported", J::B(ev.is_reachable(l))));
                }
                if let Some(imp) = tcx.impl_of_assoc(def) {
                    o.push(("impl_self", self.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
                    o.push(("impl", s(self.id(imp))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("impl_trait", s(self.path(tr.def_id))));
                        o.push((
                            "impl_trait_ref",
                            s(with_no_trimmed_paths!(tr.to_string())),
                        ));
                        o.push(("derived", J::B(tcx.is_automatically_derived(imp))));
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(def) {
                    o.push(("in_trait", s(self.path(tr))));
                }
                if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
                    let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
                    o.push((
                        "inputs",
                        J::A(sig.inputs().iter().map(|t| self.ty(*t)).collect()),
                    ));
                    o.push(("output", self.ty(sig.output())));
                    let g = tcx.param_env(def).caller_bounds();
                    o.push((
                        "preds",
                        J::A(
                            g
                                .map(|p| s(with_no_trimmed_paths!(format!("{:?}", p))))
                                .collect(),
                        ),
                    ));
                }
            }
        }
        J::O(o)
    }

    fn run(&self) -> J {
        let tcx = self.tcx;
        let mut bodies = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        let mut consts = vec![];
        let mut traits = vec![];
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        let mut keys: Vec<DefId> = keys.into_iter().map(|k| k.to_def_id()).collect();
        keys.sort_by_key(|d| self.id(*d));
        for d in keys {
            let dk = tcx.def_kind(d);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(d);
                    bodies.push(self.body(
                        self.id(d),
                        d,
                        b,
                        match dk {
                            DefKind::Closure => "closure",
                            _ => "fn",
                        },
                        None,
                    ));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(self.body(
                            format!("{}#p{}", self.id(d), i.as_usize()),
                            d,
                            p,
                            "promoted",
                            Some(i.as_usize()),
                        ));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![
                        ("id", s(self.id(d))),
                        ("path", s(self.path(d))),
                        ("ty", self.ty(t)),
                        ("span", self.span(tcx.def_span(d))),
                    ];
                    if !matches!(dk, DefKind::Static { .. }) {
                        if let Ok(v) = tcx.const_eval_poly(d) {
                            self.const_val(v, t, &mut o);
                        }
                    }
                    consts.push(J::O(o));
                }
                _ => {}
            }
        }
        let mut items: Vec<_> = tcx.hir_crate_items(()).definitions().collect();
        items.sort_by_key(|l| self.id(l.to_def_id()));
        for l in items {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let vs = def
                        .variants()
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("name", s(v.name.to_string())),
                                (
                                    "fields",
                                    J::A(
                                        v.fields
                                            .iter()
                                            .map(|f| {
                                                J::O(vec![
                                                    ("name", s(f.name.to_string())),
                                                    (
                                                        "ty",
                                                        self.ty(
                                                            tcx.type_of(f.did)
                                                                .instantiate_identity().skip_norm_wip(),
                                                        ),
                                                    ),
                                                    (
                                                        "pub",
                                                        J::B(f.vis.is_public()),
                                                    ),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                            ])
                        })
                        .collect();
                    let ev = tcx.effective_visibilities(());
                    adts.push(J::O(vec![
                        ("id", s(self.id(d))),
                        ("path", s(self.path(d))),
                        ("enum", J::B(def.is_enum())),
                        ("exported", J::B(ev.is_reachable(l))),
                        ("variants", J::A(vs)),
                        ("span", self.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let mut o = vec![
                        ("id", s(self.id(d))),
                        ("self", self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())),
                        ("span", self.span(tcx.def_span(d))),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                    ];
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(self.path(tr.def_id))));
                        o.push(("trait_ref", s(with_no_trimmed_paths!(tr.to_string()))));
                    }
                    let preds = tcx.param_env(d).caller_bounds();
                    o.push((
                        "preds",
                        J::A(
                            preds
                                .map(|p| s(with_no_trimmed_paths!(format!("{:?}", p))))
                                .collect(),
                        ),
                    ));
                    o.push((
                        "items",
                        J::A(
                            tcx.associated_item_def_ids(d)
                                .iter()
                                .map(|x| s(self.id(*x)))
                                .collect(),
                        ),
                    ));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    traits.push(J::O(vec![
                        ("id", s(self.id(d))),
                        ("path", s(self.path(d))),
                        (
                            "items",
                            J::A(
                                tcx.associated_item_def_ids(d)
                                    .iter()
                                    .map(|x| {
                                        J::A(vec![
                                            s(self.id(*x)),
                                            s(tcx.item_name(*x).to_string()),
                                        ])
                                    })
                                    .collect(),
                            ),
                        ),
                    ]));
                }
                _ => {}
            }
        }
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("bodies", J::A(bodies)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("consts", J::A(consts)),
            ("traits", J::A(traits)),
        ])
    }
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(p) = &self.out {
            let cx = Cx { tcx };
            let j = cx.run();
            let mut o = String::new();
            j.w(&mut o);
            let tmp = format!("{}.tmp{}", p, std::process::id());
            std::fs::write(&tmp, o).expect("write facts");
            std::fs::rename(&tmp, p).expect("rename facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: argv[1] is the real rustc
    if args.len() > 1 && !args[1].starts_with('-') {
        args.remove(1);
    }
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let want = std::env::var("JMT_FACTS_CRATE").unwrap_or_else(|_| "jmt".into());
    let out = if krate == want && !is_test {
        std::env::var("JMT_FACTS_OUT").ok()
    } else {
        None
    };
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
