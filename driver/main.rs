// MIR fact extractor: a rustc_private driver run as RUSTC_WORKSPACE_WRAPPER.
// Dumps the borrow-checked-input MIR (`mir_promoted`, i.e. before coroutine state transform, so
// that every await is still an explicit `yield` with its cancellation edge) of every function,
// closure and coroutine of the crate, with callees resolved through the type checker.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    calls_resolved: usize,
}

struct Cx<'a, 'tcx> {
    d: &'a mut Dump<'tcx>,
    body: &'a Body<'tcx>,
    def: LocalDefId,
    env: ty::TypingEnv<'tcx>,
}

fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(format!("{}", t))
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

// A stable unique key for a local body.
fn key<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Dump<'tcx> {
    fn note_adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = path(tcx, def.did());
        if self.adts.contains_key(&p) {
            return p;
        }
        self.adts.insert(p.clone(), String::new());
        let mut vs = vec![];
        if def.is_enum() {
            for (vi, d) in def.discriminants(tcx) {
                let v = def.variant(vi);
                let fs = v.fields.iter().map(|f| {
                    arr(vec![esc(f.name.as_str()), esc(&tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))])
                }).collect();
                vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), d.val, arr(fs)));
            }
        } else {
            for v in def.variants() {
                let fs = v.fields.iter().map(|f| {
                    arr(vec![esc(f.name.as_str()), esc(&tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))])
                }).collect();
                vs.push(format!("{{\"name\":{},\"discr\":0,\"fields\":{}}}", esc(v.name.as_str()), arr(fs)));
            }
        }
        let s = format!("{{\"kind\":{},\"local\":{},\"variants\":{}}}",
            esc(if def.is_enum() {"enum"} else if def.is_union() {"union"} else {"struct"}),
            def.did().is_local(), arr(vs));
        self.adts.insert(p.clone(), s);
        p
    }
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn line(&self, sp: Span) -> usize {
        let sm = self.d.tcx.sess.source_map();
        let sp = sp.source_callsite();
        sm.lookup_char_pos(sp.lo()).line
    }

    // does this span come out of a logging macro (tracing / log)?
    fn logging(&self, sp: Span) -> bool {
        let tcx = self.d.tcx;
        let mut sp = sp;
        for _ in 0..24 {
            let ed = sp.ctxt().outer_expn_data();
            if ed.is_root() { return false; }
            if let Some(m) = ed.macro_def_id {
                let c = tcx.crate_name(m.krate);
                if c.as_str() == "tracing" || c.as_str() == "log" || c.as_str() == "tracing_core" { return true; }
            }
            sp = ed.call_site;
        }
        false
    }

    fn fndef(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.d.tcx;
        let mut rdid = did;
        let mut rargs = args;
        let mut how = "decl";
        let erased = tcx.erase_and_anonymize_regions(args);
        let is_trait_item = tcx.trait_of_assoc(did).is_some();
        let ok_kind = matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn);
        if ok_kind && !erased.has_escaping_bound_vars() {
            if let Ok(n) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(erased)) {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, n) {
                    rdid = inst.def_id();
                    rargs = inst.args;
                    how = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        ty::InstanceKind::Shim(_) => "shim",
                        _ => "other",
                    };
                }
            }
        }
        self.d.calls_resolved += 1;
        let mut s = format!("{{\"p\":{},\"r\":{},\"how\":{}", esc(&path(tcx, did)), esc(&path(tcx, rdid)), esc(how));
        if rdid.is_local() {
            let _ = write!(s, ",\"id\":{}", esc(&key(tcx, rdid)));
        }
        if did.is_local() && did != rdid {
            let _ = write!(s, ",\"decl_id\":{}", esc(&key(tcx, did)));
        }
        let tys: Vec<String> = args.iter().filter_map(|a| a.as_type().map(|t| esc(&tystr(t)))).collect();
        let _ = write!(s, ",\"ga\":{}", arr(tys));
        let cs: Vec<String> = rargs.iter().filter_map(|a| a.as_const().map(|t| esc(&with_no_trimmed_paths!(format!("{}", t))))).collect();
        if !cs.is_empty() { let _ = write!(s, ",\"gc\":{}", arr(cs)); }
        if is_trait_item {
            if let Some(t) = tcx.trait_of_assoc(did) {
                let _ = write!(s, ",\"trait\":{}", esc(&path(tcx, t)));
            }
        }
        // closures / coroutines among the self type
        if let Some(t0) = args.iter().find_map(|a| a.as_type()) {
            let t0 = t0.peel_refs();
            match t0.kind() {
                ty::Closure(d, _) | ty::Coroutine(d, _) => {
                    let _ = write!(s, ",\"self_cl\":{}", esc(&key(tcx, *d)));
                }
                _ => {}
            }
        }
        s.push('}');
        s
    }

    fn place(&mut self, p: Place<'tcx>) -> String {
        let tcx = self.d.tcx;
        let mut out = vec![format!("{}", p.local.as_usize())];
        let mut pty = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            match el {
                ProjectionElem::Deref => out.push("[\"*\"]".into()),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut owner = String::new();
                    match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            owner = self.d.note_adt(*def);
                            let vi = pty.variant_index.unwrap_or(rustc_abi::VariantIdx::from_usize(0));
                            if def.is_enum() || def.is_struct() || def.is_union() {
                                name = def.variant(vi).fields[f].name.to_string();
                            }
                        }
                        ty::Tuple(_) => owner = "(tuple)".into(),
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            owner = format!("(closure){}", key(tcx, *d));
                            if let Some(l) = d.as_local() {
                                let names = tcx.closure_saved_names_of_captured_variables(l);
                                if let Some(n) = names.get(f) { name = format!("{}", n); }
                            }
                        }
                        _ => {}
                    }
                    out.push(format!("[\"f\",{},{},{}]", f.as_usize(), esc(&name), esc(&owner)));
                }
                ProjectionElem::Index(l) => out.push(format!("[\"i\",{}]", l.as_usize())),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    out.push(format!("[\"ci\",{},{},{}]", offset, min_length, from_end)),
                ProjectionElem::Subslice { from, to, from_end } =>
                    out.push(format!("[\"sub\",{},{},{}]", from, to, from_end)),
                ProjectionElem::Downcast(n, vi) => {
                    let nm = match pty.ty.kind() {
                        ty::Adt(def, _) => { self.d.note_adt(*def); def.variant(vi).name.to_string() }
                        _ => n.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    out.push(format!("[\"v\",{},{}]", vi.as_usize(), esc(&nm)));
                }
                _ => out.push("[\"o\"]".into()),
            }
            pty = pty.projection_ty(tcx, el);
        }
        arr(out)
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.d.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(did, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| {
                let a: &'tcx ty::List<ty::GenericArg<'tcx>> = ty::List::empty();
                a
            });
            return format!("{{\"fn\":{}}}", self.fndef(*did, args));
        }
        let mut s = format!("{{\"t\":{}", esc(&tystr(t)));
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                let _ = write!(s, ",\"prom\":{}", esc(&format!("{}#{}", key(tcx, uv.def), p.as_usize())));
                s.push('}');
                return s;
            }
            let _ = write!(s, ",\"name\":{}", esc(&path(tcx, uv.def)));
        }
        if let Const::Ty(_, ct) = c.const_ {
            if let ty::ConstKind::Param(_) = ct.kind() {
                let root = tcx.typeck_root_def_id(self.body.source.def_id());
                let all = ty::GenericArgs::identity_for_item(tcx, root);
                if let Some(i) = all.iter().filter_map(|a| a.as_const()).position(|x| x == ct) {
                    let _ = write!(s, ",\"cp\":{}", i);
                }
            }
        }
        if !c.const_.has_param() && !c.const_.ty().has_escaping_bound_vars() {
            if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                if let Some(sc) = v.try_to_scalar_int() {
                    let sz = sc.size();
                    if matches!(t.kind(), ty::Int(_)) {
                        let _ = write!(s, ",\"v\":{}", sc.to_int(sz));
                    } else {
                        let _ = write!(s, ",\"v\":{}", sc.to_uint(sz));
                    }
                } else {
                    let txt = with_no_trimmed_paths!(format!("{}", Const::Val(v, t)));
                    let _ = write!(s, ",\"s\":{}", esc(&txt));
                    if let ConstValue::Scalar(interpret::Scalar::Ptr(ptr, _)) = v {
                        if let interpret::GlobalAlloc::Static(d) = tcx.global_alloc(ptr.provenance.alloc_id()) {
                            let _ = write!(s, ",\"static\":{}", esc(&path(tcx, d)));
                        }
                    }
                }
            }
        }
        if let ty::Closure(d, _) = t.kind() {
            let _ = write!(s, ",\"closure\":{}", esc(&key(tcx, *d)));
        }
        s.push('}');
        s
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(*p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(*p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(c)),
            Operand::RuntimeChecks(r) => format!("{{\"k\":{{\"t\":\"bool\",\"rt\":{}}}}}", esc(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.d.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), esc(&format!("{}", n))),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]",
                esc(match bk { BorrowKind::Shared => "s", BorrowKind::Fake(_) => "fake", BorrowKind::Mut { .. } => "m" }), self.place(*p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&path(tcx, *d))),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", esc("raw"), self.place(*p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), esc(&tystr(*t))),
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), self.operand(&ops.0), self.operand(&ops.1)),
            Rvalue::UnaryOp(b, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", b)), self.operand(o)),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(&self.body.local_decls, tcx).ty;
                let mut a = String::new();
                if let ty::Adt(def, _) = pt.kind() { a = self.d.note_adt(*def); }
                format!("[\"discr\",{},{}]", self.place(*p), esc(&a))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let (kind, name, variant, fields) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new(), String::new(), vec![]),
                    AggregateKind::Tuple => ("tuple", String::new(), String::new(), vec![]),
                    AggregateKind::Adt(did, vi, _, _, active) => {
                        let def = tcx.adt_def(*did);
                        let n = self.d.note_adt(def);
                        let v = def.variant(*vi);
                        let fs: Vec<String> = if let Some(a) = active { vec![esc(v.fields[*a].name.as_str())] } else {
                            v.fields.iter().map(|f| esc(f.name.as_str())).collect() };
                        ("adt", n, v.name.to_string(), fs)
                    }
                    AggregateKind::Closure(d, _) => ("closure", key(tcx, *d), String::new(), self.upvars(*d)),
                    AggregateKind::Coroutine(d, _) => ("coroutine", key(tcx, *d), String::new(), self.upvars(*d)),
                    AggregateKind::CoroutineClosure(d, _) => ("cclosure", key(tcx, *d), String::new(), vec![]),
                    AggregateKind::RawPtr(..) => ("rawptr", String::new(), String::new(), vec![]),
                };
                format!("[\"agg\",{},{},{},{},{}]", esc(kind), esc(&name), esc(&variant), arr(fields), arr(os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(*p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(*p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }

    fn upvars(&self, d: DefId) -> Vec<String> {
        if let Some(l) = d.as_local() {
            self.d.tcx.closure_saved_names_of_captured_variables(l).iter().map(|s| esc(&format!("{}", s))).collect()
        } else {
            vec![]
        }
    }

    fn unw(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => format!("{}", b.as_usize()),
            _ => "null".into(),
        }
    }

    fn block(&mut self, bb: &BasicBlockData<'tcx>) -> String {
        let tcx = self.d.tcx;
        let mut ss = vec![];
        for st in &bb.statements {
            let ln = self.line(st.source_info.span);
            match &st.kind {
                StatementKind::Assign(b) => {
                    let (p, r) = &**b;
                    if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = r { continue; }
                    ss.push(format!("[\"=\",{},{},{}]", self.place(*p), self.rvalue(r), ln));
                }
                StatementKind::SetDiscriminant { place, variant_index } =>
                    ss.push(format!("[\"sd\",{},{},{}]", self.place(**place), variant_index.as_usize(), ln)),
                StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l.as_usize())),
                StatementKind::Intrinsic(i) => ss.push(format!("[\"intr\",{},{}]", esc(&format!("{:?}", i)), ln)),
                _ => {}
            }
        }
        let t = bb.terminator();
        let ln = self.line(t.source_info.span);
        let term = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                let dt = discr.ty(&self.body.local_decls, tcx);
                format!("[\"sw\",{},{},{},{},{}]", self.operand(discr), arr(ts), targets.otherwise().as_usize(), esc(&tystr(dt)), ln)
            }
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let pt = place.ty(&self.body.local_decls, tcx).ty;
                format!("[\"drop\",{},{},{},{},{}]", self.place(*place), target.as_usize(), Self::unw(unwind), esc(&tystr(pt)), ln)
            }
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                let a: Vec<String> = args.iter().map(|o| self.operand(&o.node)).collect();
                let at: Vec<String> = args.iter().map(|o| esc(&tystr(o.node.ty(&self.body.local_decls, tcx)))).collect();
                let dt = destination.ty(&self.body.local_decls, tcx).ty;
                format!("[\"call\",{},{},{},{},{},{},{},{}]", self.operand(func), arr(a), self.place(*destination),
                    target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()), Self::unw(unwind), arr(at), esc(&tystr(dt)), self.line(*fn_span))
            }
            TerminatorKind::TailCall { .. } => "[\"unreach\"]".into(),
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                    AssertKind::Overflow(op, a, b) => format!("[\"overflow\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(a), self.operand(b)),
                    AssertKind::OverflowNeg(a) => format!("[\"neg\",{}]", self.operand(a)),
                    AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(a)),
                    AssertKind::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(a)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"assert\",{},{},{},{},{},{}]", self.operand(cond), expected, m, target.as_usize(), Self::unw(unwind), ln)
            }
            TerminatorKind::Yield { value, resume, resume_arg, drop } =>
                format!("[\"yield\",{},{},{},{}]", self.place(*resume_arg), resume.as_usize(),
                    drop.map(|b| b.as_usize().to_string()).unwrap_or("null".into()), ln),
            TerminatorKind::CoroutineDrop => "[\"cdrop\"]".into(),
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::InlineAsm { .. } => "[\"unreach\"]".into(),
        };
        let lg = self.logging(t.source_info.span);
        format!("{{\"s\":{},\"t\":{},\"cl\":{},\"lg\":{}}}", arr(ss), term, bb.is_cleanup, lg)
    }
}

fn dump_body<'tcx>(d: &mut Dump<'tcx>, def: LocalDefId, body: &Body<'tcx>, id: String, kind: &str) -> String {
    let tcx = d.tcx;
    let env = ty::TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(def.to_def_id()));
    let mut cx = Cx { d, body, def, env };
    let sm = tcx.sess.source_map();
    let sp = body.span.source_callsite();
    let lo = sm.lookup_char_pos(sp.lo());
    let file = format!("{}", lo.file.name.prefer_local_unconditionally());
    let mut names: BTreeMap<usize, String> = BTreeMap::new();
    for v in &body.var_debug_info {
        if let VarDebugInfoContents::Place(p) = v.value {
            if let Some(l) = p.as_local() {
                names.insert(l.as_usize(), v.name.to_string());
            }
        }
    }
    let locals: Vec<String> = body.local_decls.iter_enumerated().map(|(l, decl)| {
        arr(vec![esc(&tystr(decl.ty)), names.get(&l.as_usize()).map(|s| esc(s)).unwrap_or("null".into())])
    }).collect();
    let blocks: Vec<String> = body.basic_blocks.iter().map(|b| cx.block(b)).collect();
    let mut s = format!("{{\"id\":{},\"kind\":{},\"path\":{},\"name\":{},\"file\":{},\"line\":{},\"argc\":{}",
        esc(&id), esc(kind), esc(&path(tcx, def.to_def_id())),
        esc(&tcx.opt_item_name(def.to_def_id()).map(|s| s.to_string()).unwrap_or_default()),
        esc(&file), lo.line, body.arg_count);
    let parent = tcx.opt_local_parent(def);
    if let Some(p) = parent {
        let _ = write!(s, ",\"parent\":{}", esc(&key(tcx, p.to_def_id())));
    }
    if let Some(im) = tcx.impl_of_assoc(def.to_def_id()) {
        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
        let _ = write!(s, ",\"self_ty\":{}", esc(&tystr(st)));
        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            let _ = write!(s, ",\"trait\":{}", esc(&path(tcx, tr.def_id)));
        }
    }
    if matches!(kind, "closure" | "coroutine") {
        let names: Vec<String> = tcx.closure_saved_names_of_captured_variables(def).iter().map(|s| esc(&format!("{}", s))).collect();
        let _ = write!(s, ",\"upvars\":{}", arr(names));
    }
    let vis = tcx.visibility(def.to_def_id()).is_public();
    let _ = write!(s, ",\"pub\":{},\"locals\":{},\"blocks\":{}}}", vis, arr(locals), arr(blocks));
    s
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies = vec![];
        for def in tcx.hir_body_owners() {
            let kind = tcx.def_kind(def);
            let k = match kind {
                DefKind::Fn | DefKind::AssocFn => "fn",
                DefKind::Closure => if tcx.is_coroutine(def.to_def_id()) { "coroutine" } else { "closure" },
                _ => continue,
            };
            // derive(..) generated code included; constructors have no bodies
            let (b, p) = tcx.mir_promoted(def);
            bodies.push((def, k, b.borrow().clone(), p.borrow().clone()));
        }
        let mut d = Dump { tcx, adts: BTreeMap::new(), calls_resolved: 0 };
        let mut out = Vec::new();
        for (def, k, b, proms) in &bodies {
            let id = key(tcx, def.to_def_id());
            out.push(dump_body(&mut d, *def, b, id.clone(), k));
            for (pi, pb) in proms.iter_enumerated() {
                out.push(dump_body(&mut d, *def, pb, format!("{}#{}", id, pi.as_usize()), "promoted"));
            }
        }
        // all local ADTs, impls of Drop
        let mut drops = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Struct | DefKind::Enum => { d.note_adt(tcx.adt_def(id)); }
                DefKind::Impl { .. } => {
                    if let Some(tr) = tcx.impl_opt_trait_ref(id) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let tp = path(tcx, tr.def_id);
                        let st = tystr(tr.self_ty());
                        let items: Vec<String> = tcx.associated_item_def_ids(id).iter().map(|i| arr(vec![esc(&tcx.opt_item_name(*i).map(|s| s.to_string()).unwrap_or_default()), esc(&key(tcx, *i))])).collect();
                        drops.push(arr(vec![esc(&tp), esc(&st), arr(items)]));
                    }
                }
                _ => {}
            }
        }
        // local consts
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let k = tcx.def_kind(id);
            if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                if tcx.generics_of(id).requires_monomorphization(tcx) { continue; }
                if let Ok(v) = tcx.const_eval_poly(id.to_def_id()) {
                    if let Some(sc) = v.try_to_scalar_int() {
                        let sz = sc.size();
                        consts.push(format!("{}:{}", esc(&path(tcx, id.to_def_id())), sc.to_uint(sz)));
                    }
                }
            }
        }
        let adts: Vec<String> = d.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), if v.is_empty() {"null"} else {v})).collect();
        let n = out.len();
        let s = format!("{{\"crate\":{},\"bodies\":[\n{}\n],\n\"adts\":{{{}}},\n\"impls\":{},\n\"consts\":{{{}}},\"calls_resolved\":{}}}\n",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), out.join(",\n"), adts.join(",\n"), arr(drops), consts.join(","), d.calls_resolved);
        std::fs::write(&self.out, s).expect("write facts");
        eprintln!("facts: {} bodies -> {}", n, self.out);
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(1);
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == std::env::var("FACTS_CRATE").unwrap_or_default())
        && !args.iter().any(|a| a == "--test");
    rustc_driver::catch_with_exit_code(|| {
        if is_target {
            let out = std::env::var("FACTS_OUT").expect("FACTS_OUT");
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
