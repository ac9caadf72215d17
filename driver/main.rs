// MIR exporter: runs as a rustc driver (RUSTC_WORKSPACE_WRAPPER) and writes, for
// the crate being compiled, every MIR body with resolved callees, every ADT, impl,
// static and unsafe item as JSON.  No judgement is made here.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        esc(&rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn uid(&self, d: DefId) -> String {
        // unique, stable key for a definition
        esc(&format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose()))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{}]", esc(&f), lo.line)
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let s = esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)));
        match t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Uint(_) | ty::Int(_) => format!("{{\"k\":\"int\",\"s\":{}}}", s),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Adt(a, args) => format!(
                "{{\"k\":\"adt\",\"p\":{},\"local\":{},\"u\":{},\"a\":{}}}",
                self.path(a.did()),
                a.did().is_local(),
                self.uid(a.did()),
                list(args.types().map(|t| self.ty(t)).collect())
            ),
            ty::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), self.ty(*t)),
            ty::RawPtr(t, _) => format!("{{\"k\":\"ptr\",\"t\":{}}}", self.ty(*t)),
            ty::Tuple(ts) => format!("{{\"k\":\"tuple\",\"a\":{}}}", list(ts.iter().map(|t| self.ty(t)).collect())),
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"u\":{}}}", self.uid(*d)),
            ty::FnDef(d, args) => format!(
                "{{\"k\":\"fndef\",\"f\":{}}}",
                self.callee(*d, args.skip_binder(), None)
            ),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", s),
            ty::Param(p) => format!("{{\"k\":\"param\",\"s\":{}}}", esc(p.name.as_str())),
            ty::Array(t, _) => format!("{{\"k\":\"array\",\"t\":{}}}", self.ty(*t)),
            ty::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*t)),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", s),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", s),
        }
    }
    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: Option<TypingEnv<'tcx>>) -> String {
        let mut o = format!(
            "{{\"p\":{},\"u\":{},\"local\":{},\"a\":{}",
            self.path(d),
            self.uid(d),
            d.is_local(),
            list(args.types().map(|t| self.ty(t)).collect())
        );
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{},\"m\":{}", self.path(tr), esc(self.tcx.item_name(d).as_str()));
        } else if matches!(self.tcx.def_kind(d), DefKind::AssocFn | DefKind::Fn) {
            let _ = write!(o, ",\"m\":{}", esc(self.tcx.item_name(d).as_str()));
        }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            let p = self.tcx.parent(d);
            let (adt, var) = if self.tcx.def_kind(p) == DefKind::Variant {
                (self.tcx.parent(p), self.tcx.item_name(p).to_string())
            } else {
                (p, String::new())
            };
            let _ = write!(o, ",\"ctor\":{},\"variant\":{}", self.path(adt), esc(&var));
        }
        if let Some(env) = env {
            if matches!(self.tcx.def_kind(d), DefKind::AssocFn | DefKind::Fn) {
                if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, d, args) {
                    let r = inst.def_id();
                    if r.is_local() && self.tcx.is_mir_available(r) {
                        let _ = write!(o, ",\"r\":{}", self.uid(r));
                    } else {
                        let _ = write!(o, ",\"rx\":{}", self.path(r));
                    }
                }
            }
        }
        o.push('}');
        o
    }
    fn place(&self, b: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&b.local_decls, self.tcx);
            pr.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let n = match bt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match bt.variant_index {
                                Some(v) => a.variant(v),
                                None if a.is_struct() => a.non_enum_variant(),
                                None => a.variant(rustc_abi::VariantIdx::from_u32(0)),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_u32()),
                    };
                    format!("[\"f\",{},{}]", f.as_u32(), esc(&n))
                }
                ProjectionElem::Downcast(n, v) => {
                    let n = match bt.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => n.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    format!("[\"v\",{},{}]", v.as_u32(), esc(&n))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_u32(), list(pr))
    }
    fn constant(&self, b: &Body<'tcx>, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let _ = b;
        let t = c.const_.ty();
        let tj = self.ty(t);
        match t.kind() {
            ty::FnDef(d, args) => return format!("{{\"fn\":{}}}", self.callee(*d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), Some(env))),
            ty::Bool => {
                if let Some(v) = c.const_.try_eval_bool(self.tcx, env) {
                    return format!("{{\"bool\":{}}}", v);
                }
            }
            ty::Uint(_) | ty::Int(_) => {
                if let Some(v) = c.const_.try_eval_bits(self.tcx, env) {
                    return format!("{{\"int\":\"{}\"}}", v);
                }
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            return format!(
                "{{\"uneval\":{},\"promoted\":{},\"t\":{}}}",
                self.uid(u.def),
                u.promoted.map(|p| p.as_u32() as i64).unwrap_or(-1),
                tj
            );
        }
        if let Some(d) = c.check_static_ptr(self.tcx) {
            return format!("{{\"static\":{},\"t\":{}}}", self.path(d), tj);
        }
        let s = esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_)));
        format!("{{\"c\":{},\"t\":{}}}", s, tj)
    }
    fn op(&self, b: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(b, p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(b, p)),
            Operand::Constant(c) => self.constant(b, env, c),
            Operand::RuntimeChecks(_) => "{\"rtc\":true}".into(),
        }
    }
    fn rvalue(&self, b: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(b, env, o)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.op(b, env, o)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(b, p)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(b, p)),
            Rvalue::Cast(_, o, t) => format!("[\"cast\",{},{}]", self.op(b, env, o), self.ty(*t)),
            Rvalue::BinaryOp(k, x) => format!("[\"bin\",\"{:?}\",{},{}]", k, self.op(b, env, &x.0), self.op(b, env, &x.1)),
            Rvalue::UnaryOp(k, x) => format!("[\"un\",\"{:?}\",{}]", k, self.op(b, env, x)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() {
                        for (i, d) in a.discriminants(self.tcx) {
                            vs.push(format!("[\"{}\",{}]", d.val, esc(a.variant(i).name.as_str())));
                        }
                    }
                }
                format!("[\"discr\",{},{}]", self.place(b, p), list(vs))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = list(ops.iter().map(|o| self.op(b, env, o)).collect());
                match &**k {
                    AggregateKind::Tuple => format!("[\"agg\",{{\"k\":\"tuple\"}},{}]", ops),
                    AggregateKind::Array(_) => format!("[\"agg\",{{\"k\":\"array\"}},{}]", ops),
                    AggregateKind::Closure(d, _) => format!("[\"agg\",{{\"k\":\"closure\",\"u\":{}}},{}]", self.uid(*d), ops),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let a = self.tcx.adt_def(*d);
                        let var = a.variant(*v);
                        format!(
                            "[\"agg\",{{\"k\":\"adt\",\"p\":{},\"enum\":{},\"v\":{},\"fs\":{}}},{}]",
                            self.path(*d),
                            a.is_enum(),
                            esc(var.name.as_str()),
                            list(var.fields.iter().map(|f| esc(f.name.as_str())).collect()),
                            ops
                        )
                    }
                    _ => format!("[\"agg\",{{\"k\":\"other\"}},{}]", ops),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(b, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(b, p)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn body(&self, b: &Body<'tcx>, did: LocalDefId, promoted: Option<u32>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did.to_def_id());
        let mut o = String::new();
        let d = did.to_def_id();
        let _ = write!(
            o,
            "{{\"u\":{},\"p\":{},\"kind\":\"{:?}\",\"span\":{},\"promoted\":{},\"argc\":{}",
            self.uid(d),
            self.path(d),
            tcx.def_kind(d),
            self.span(b.span),
            promoted.map(|p| p as i64).unwrap_or(-1),
            b.arg_count
        );
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"pub\":{},\"name\":{}", tcx.visibility(d).is_public(), esc(tcx.item_name(d).as_str()));
            let parent = tcx.parent(d);
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"self_ty\":{}", self.ty(st));
                if of_trait {
                    let _ = write!(o, ",\"impl_trait\":{}", self.path(tcx.impl_trait_id(parent)));
                }
            }
            let _ = write!(o, ",\"unsafe\":{}", tcx.fn_sig(d).skip_binder().safety().is_unsafe());
        }
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let _ = write!(o, ",\"locals\":{}", list(locals));
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(b, p)));
            }
        }
        let _ = write!(o, ",\"names\":{}", list(names));
        if tcx.is_closure_like(d) {
            let ups: Vec<String> = b.var_debug_info.iter().filter_map(|_| None).collect();
            let _ = write!(o, ",\"ups\":{}", list(ups));
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        st.push(format!("[\"=\",{},{},{}]", self.place(b, &x.0), self.rvalue(b, env, &x.1), self.span(s.source_info.span)))
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_u32())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_u32())),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{}]", self.place(b, place), variant_index.as_u32()))
                    }
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets, .. } => format!(
                    "[\"switch\",{},{},{}]",
                    self.op(b, env, discr),
                    list(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_u32())).collect()),
                    targets.otherwise().as_u32()
                ),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(b, place), target.as_u32()),
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "[\"call\",{},{},{},{}]",
                    self.op(b, env, func),
                    list(args.iter().map(|a| self.op(b, env, &a.node)).collect()),
                    self.place(b, destination),
                    target.map(|t| t.as_u32() as i64).unwrap_or(-1)
                ),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.op(b, env, len), self.op(b, env, index)]),
                        AssertKind::Overflow(op, x, y) => (format!("overflow:{:?}", op), vec![self.op(b, env, x), self.op(b, env, y)]),
                        AssertKind::DivisionByZero(x) => ("div0".to_string(), vec![self.op(b, env, x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".to_string(), vec![self.op(b, env, x)]),
                        _ => ("other".to_string(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(b, env, cond), expected, esc(&k), list(ops), target.as_u32())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                k => format!("[\"other\",{}]", esc(&format!("{:?}", k))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"cl\":{}}}", list(st), t, sp, bb.is_cleanup));
        }
        let _ = write!(o, ",\"blocks\":{}}}", list(blocks));
        o
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("VERIF_MIR_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let d = D { tcx };
        let mut bodies = vec![];
        let mut unsafes: Vec<String> = vec![];
        for &l in tcx.mir_keys(()).iter() {
            let kind = tcx.def_kind(l);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            if tcx.is_constructor(l.to_def_id()) {
                continue;
            }
            let b = tcx.optimized_mir(l.to_def_id());
            bodies.push(d.body(b, l, None));
            for (i, p) in tcx.promoted_mir(l.to_def_id()).iter_enumerated() {
                bodies.push(d.body(p, l, Some(i.as_u32())));
            }
        }
        let mut adts = vec![];
        let mut statics = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let did = l.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let vs: Vec<String> = a
                        .variants()
                        .iter()
                        .map(|v| {
                            format!(
                                "{{\"n\":{},\"fs\":{}}}",
                                esc(v.name.as_str()),
                                list(
                                    v.fields
                                        .iter()
                                        .map(|f| {
                                            format!(
                                                "{{\"n\":{},\"pub\":{},\"t\":{}}}",
                                                esc(f.name.as_str()),
                                                f.vis.is_public(),
                                                d.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())
                                            )
                                        })
                                        .collect()
                                )
                            )
                        })
                        .collect();
                    adts.push(format!(
                        "{{\"p\":{},\"u\":{},\"kind\":\"{:?}\",\"pub\":{},\"span\":{},\"vs\":{}}}",
                        d.path(did),
                        d.uid(did),
                        tcx.def_kind(did),
                        tcx.visibility(did).is_public(),
                        d.span(tcx.def_span(did)),
                        list(vs)
                    ));
                }
                DefKind::Static { mutability, .. } => {
                    statics.push(format!(
                        "{{\"p\":{},\"mut\":{},\"t\":{},\"span\":{}}}",
                        d.path(did),
                        mutability.is_mut(),
                        d.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip()),
                        d.span(tcx.def_span(did))
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let t = if of_trait { d.path(tcx.impl_trait_id(did)) } else { "null".into() };
                    impls.push(format!(
                        "{{\"trait\":{},\"self\":{},\"span\":{},\"unsafe\":{}}}",
                        t,
                        d.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip()),
                        d.span(tcx.def_span(did)),
                        of_trait && tcx.impl_trait_header(did).safety.is_unsafe()
                    ));
                }
                DefKind::Trait => {
                    let ms: Vec<String> = tcx.associated_items(did).in_definition_order().filter(|i| i.is_fn()).map(|i| esc(i.name().as_str())).collect();
                    traits.push(format!("{{\"p\":{},\"ms\":{}}}", d.path(did), list(ms)));
                }
                _ => {}
            }
        }
        // unsafe blocks, from the HIR
        struct V<'a, 'tcx> {
            d: &'a D<'tcx>,
            out: &'a mut Vec<String>,
        }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.d.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    self.out.push(self.d.span(b.span));
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        tcx.hir_walk_toplevel_module(&mut V { d: &d, out: &mut unsafes });
        let o = format!(
            "{{\"crate\":{},\"bodies\":{},\"adts\":{},\"statics\":{},\"impls\":{},\"traits\":{},\"unsafe_blocks\":{}}}",
            esc(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
            list(bodies),
            list(adts),
            list(statics),
            list(impls),
            list(traits),
            list(unsafes)
        );
        std::fs::write(&out, o).expect("write MIR json");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as first argument
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if std::env::var("VERIF_MIR_OUT").is_ok() {
        // unoptimised MIR, overflow checks visible, no debug-assertion noise
        for f in ["-Zmir-opt-level=0", "-Cdebug-assertions=no", "-Coverflow-checks=yes"] {
            args.push(f.to_string());
        }
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
