//! rustc driver that dumps the optimised-level-0 MIR (drop-elaborated, all
//! callees resolved, all types interned) of one crate of the workspace as JSON.
//! Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private, exitcode_exit_method)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_hir_pretty;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, Body, Const, ConstValue, Operand, Place, ProjectionElem,
    Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(items: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = items.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_json: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let p = with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(
            tcx.def_path_str(d)
        )));
        p
    }

    fn loc(&self, sp: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let did = def.did();
        if self.adts.insert(did, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = Vec::new();
        for (i, v) in def.variants().iter_enumerated() {
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if did.is_local() || !def.is_box() { self.ty(fty) } else { self.ty(fty) };
                fs.push(format!("{{\"n\":{},\"t\":{}}}", esc(f.name.as_str()), t));
            }
            let discr = if def.is_enum() {
                format!("{}", def.discriminant_for_variant(tcx, i).val)
            } else {
                "0".into()
            };
            let mut attrs = Vec::new();
            if let Some(l) = v.def_id.as_local() {
                let hid = tcx.local_def_id_to_hir_id(l);
                for a in tcx.hir_attrs(hid) {
                    let s = rustc_hir_pretty::attribute_to_string(&(&tcx as &dyn rustc_hir::intravisit::HirTyCtxt<'_>), a);
                    if !s.trim().is_empty() {
                        attrs.push(esc(s.trim()));
                    }
                }
            }
            vs.push(format!(
                "{{\"n\":{},\"discr\":{},\"f\":{},\"attrs\":{}}}",
                esc(v.name.as_str()), esc(&discr), arr(fs), arr(attrs)
            ));
        }
        let mut layout = String::from("null");
        if did.is_local() && !def.is_enum() && tcx.generics_of(did).count() == tcx.generics_of(did).own_counts().lifetimes {
            let env = TypingEnv::post_analysis(tcx, did);
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                let offs: Vec<String> = (0..l.fields.count()).map(|i| l.fields.offset(i).bytes().to_string()).collect();
                layout = format!("{{\"size\":{},\"offsets\":{}}}", l.size.bytes(), arr(offs));
            }
        }
        let (file, line) = self.loc(tcx.def_span(did));
        let s = format!(
            "{{\"d\":{},\"local\":{},\"kind\":\"{}\",\"reprc\":{},\"file\":{},\"line\":{},\"layout\":{},\"variants\":{}}}",
            esc(&self.path(did)), did.is_local(), kind, def.repr().c(), esc(&file), line, layout, arr(vs)
        );
        self.adt_json.push(s);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let id = self.type_json.len();
        self.types.insert(t, id);
        self.type_json.push(String::new());
        let disp = with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(t.to_string())));
        let body = match t.kind() {
            ty::Adt(def, args) => {
                self.adt(*def);
                let a = self.args(args);
                format!("\"k\":\"adt\",\"d\":{},\"a\":{}", esc(&self.path(def.did())), a)
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), i)
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), i)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(v))
            }
            ty::Slice(x) => {
                let i = self.ty(*x);
                format!("\"k\":\"slice\",\"t\":{}", i)
            }
            ty::Array(x, n) => {
                let i = self.ty(*x);
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", i, esc(&n.to_string()))
            }
            ty::FnDef(d, args) => {
                let a = self.args(args.no_bound_vars().unwrap());
                format!("\"k\":\"fndef\",\"d\":{},\"a\":{}", esc(&self.path(*d)), a)
            }
            ty::FnPtr(..) => format!("\"k\":\"fnptr\""),
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"d\":{},\"up\":{}", esc(&self.path(*d)), arr(ups))
            }
            ty::Dynamic(preds, _) => {
                let d = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"d\":{}", esc(&d))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Alias(..) => format!("\"k\":\"alias\""),
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Int(_) => format!("\"k\":\"int\""),
            ty::Uint(_) => format!("\"k\":\"uint\""),
            ty::Float(_) => format!("\"k\":\"float\""),
            _ => "\"k\":\"other\"".into(),
        };
        self.type_json[id] = format!("{{\"id\":{},\"s\":{},{}}}", id, esc(&disp), body);
        id
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = Vec::new();
        for a in args.iter() {
            if let GenericArgKind::Type(t) = a.kind() {
                v.push(self.ty(t).to_string());
            }
        }
        arr(v)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pr = Vec::new();
        let mut cur = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            match elem {
                ProjectionElem::Deref => pr.push("\"*\"".to_string()),
                ProjectionElem::Field(f, fty) => {
                    let t = self.ty(fty);
                    let mut name = f.index().to_string();
                    let mut owner = String::new();
                    let mut var = String::new();
                    match cur.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = def.variant(vi);
                            name = v.fields[f].name.to_string();
                            owner = self.path(def.did());
                            var = v.name.to_string();
                        }
                        ty::Closure(d, _) => {
                            owner = self.path(*d);
                        }
                        _ => {}
                    }
                    pr.push(format!(
                        "{{\"f\":{},\"n\":{},\"o\":{},\"v\":{},\"t\":{}}}",
                        f.index(), esc(&name), esc(&owner), esc(&var), t
                    ));
                }
                ProjectionElem::Index(l) => pr.push(format!("{{\"i\":{}}}", l.index())),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    pr.push(format!("{{\"ci\":{},\"e\":{}}}", offset, from_end))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    pr.push(format!("{{\"sub\":[{},{},{}]}}", from, to, from_end))
                }
                ProjectionElem::Downcast(name, vi) => {
                    let n = name.map(|s| s.to_string()).unwrap_or_default();
                    pr.push(format!("{{\"d\":{},\"n\":{}}}", vi.index(), esc(&n)))
                }
                _ => pr.push("\"?\"".to_string()),
            }
            cur = cur.projection_ty(tcx, elem);
        }
        if pr.is_empty() {
            format!("[{}]", p.local.index())
        } else {
            format!("[{},{}]", p.local.index(), pr.join(","))
        }
    }

    fn konst(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, c: &Const<'tcx>, sp: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                let _ = write!(extra, ",\"d\":{}", esc(&self.path(u.def)));
            } else {
                let _ = write!(extra, ",\"promoted\":{}", u.promoted.unwrap().index());
            }
        }
        let _ = body;
        if let ty::FnDef(..) | ty::Closure(..) = t.kind() {
        } else if let Ok(v) = c.eval(tcx, env, sp) {
            match v {
                ConstValue::Scalar(s) => {
                    if let Ok(i) = s.try_to_scalar_int() {
                        let val = match t.kind() {
                            ty::Int(_) => i.to_int(i.size()).to_string(),
                            _ => i.to_bits(i.size()).to_string(),
                        };
                        let _ = write!(extra, ",\"v\":{}", esc(&val));
                    } else if let ty::Ref(_, inner, _) = t.kind() {
                        if let ty::Array(el, n) = inner.kind() {
                            if *el == tcx.types.u8 {
                                if let Some(n) = n.try_to_target_usize(tcx) {
                                    { let ptr = s.to_pointer(&tcx);
                                        if let (Some(prov), off) = ptr.into_raw_parts() {
                                            let alloc = tcx.global_alloc(prov.alloc_id());
                                            if let mir::interpret::GlobalAlloc::Memory(m) = alloc {
                                                let o = off.bytes() as usize;
                                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                                let text = match std::str::from_utf8(b) {
                                                    Ok(t) => t.to_owned(),
                                                    // a format template: one character per byte
                                                    Err(_) => b.iter().map(|&x| char::from(x)).collect(),
                                                };
                                                let _ = write!(extra, ",\"bytes\":{}", esc(&text));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                ConstValue::Slice { .. } => {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                let _ = write!(extra, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        format!("{{\"k\":{{\"t\":{}{}}}}}", tid, extra)
    }

    fn op(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.konst(body, env, &c.const_, c.span),
            Operand::RuntimeChecks(_) => "{\"rc\":1}".into(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(body, env, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.op(body, env, o),
                n.try_to_target_usize(self.tcx).map_or("null".to_owned(), |n| n.to_string())
            ),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(body, env, o), ti)
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", b)),
                self.op(body, env, &ops.0),
                self.op(body, env, &ops.1)
            ),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.op(body, env, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(body, p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let kd = match &**k {
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let a = self.args(args);
                        format!(
                            "{{\"k\":\"adt\",\"d\":{},\"v\":{},\"vi\":{},\"a\":{}}}",
                            esc(&self.path(*d)),
                            esc(def.variant(*vi).name.as_str()),
                            vi.index(),
                            a
                        )
                    }
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".into(),
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".into(),
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"d\":{}}}", esc(&self.path(*d))),
                    _ => "{\"k\":\"other\"}".into(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.op(body, env, o)).collect();
                format!("[\"agg\",{},{}]", kd, arr(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            _ => "[\"other\"]".into(),
        }
    }

    fn body(&mut self, id: String, kind: &str, did: DefId, body: &Body<'tcx>, promoted: bool) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let (file, line) = self.loc(tcx.def_span(did));
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut vars = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                }
                vars.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, p)));
            }
        }
        let mut locals = Vec::new();
        for (i, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            match names.get(&i.index()) {
                Some(n) => locals.push(format!("[{},{}]", t, esc(n))),
                None => locals.push(format!("[{}]", t)),
            }
        }
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let ln = self.loc(s.source_info.span).1;
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, env, &b.1);
                        st.push(format!("[{},{},{}]", p, r, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(format!("[{},[\"setdiscr\",{}],{}]", p, variant_index.index(), ln));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.loc(t.source_info.span).1;
            let uw = |u: &mir::UnwindAction| match u {
                mir::UnwindAction::Cleanup(b) => b.index().to_string(),
                _ => "null".into(),
            };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tg: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.index())).collect();
                    format!("{{\"k\":\"switch\",\"o\":{},\"tg\":{},\"e\":{}", self.op(body, env, discr), arr(tg), targets.otherwise().index())
                }
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"abort\"".into(),
                TerminatorKind::Return => "{\"k\":\"return\"".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    let needs = pt.needs_drop(tcx, env);
                    let ti = self.ty(pt);
                    format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"needs\":{},\"t\":{},\"u\":{}", self.place(body, place), ti, needs, target.index(), uw(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (m, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("overflowneg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    let oj: Vec<String> = ops.iter().map(|o| self.op(body, env, o)).collect();
                    format!("{{\"k\":\"assert\",\"o\":{},\"x\":{},\"m\":{},\"ops\":{},\"t\":{},\"u\":{}", self.op(body, env, cond), expected, esc(&m), arr(oj), target.index(), uw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let mut fj = String::new();
                    let fty = func.ty(body, tcx);
                    if let ty::FnDef(d, ga) = fty.kind() {
                        let ga = ga.no_bound_vars().unwrap();
                        let a = self.args(ga);
                        let mut r = String::from("null");
                        let mut rl = false;
                        let ga_e = tcx.erase_and_anonymize_regions(ga);
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, *d, ga_e) {
                            let rd = inst.def_id();
                            r = esc(&self.path(rd));
                            rl = rd.is_local();
                            let _ = rl;
                            let k = match inst.def {
                                ty::InstanceKind::Item(_) => "item",
                                ty::InstanceKind::Virtual(..) => "virtual",
                                _ => "shim",
                            };
                            let _ = write!(fj, "\"ik\":\"{}\",", k);
                        }
                        let tr = tcx.trait_of_assoc(*d).map(|t| self.path(t));
                        let _ = rl;
                        let _ = write!(fj, "\"d\":{},\"a\":{},\"r\":{}", esc(&self.path(*d)), a, r);
                        if let Some(tr) = tr {
                            let _ = write!(fj, ",\"tr\":{}", esc(&tr));
                        }
                    } else {
                        let _ = write!(fj, "\"fp\":{}", self.op(body, env, func));
                    }
                    let aj: Vec<String> = args.iter().map(|a| self.op(body, env, &a.node)).collect();
                    format!(
                        "{{\"k\":\"call\",\"f\":{{{}}},\"args\":{},\"dst\":{},\"t\":{},\"u\":{}",
                        fj,
                        arr(aj),
                        self.place(body, destination),
                        target.map(|t| t.index().to_string()).unwrap_or("null".into()),
                        uw(unwind)
                    )
                }
                _ => "{\"k\":\"other\"".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}},\"cl\":{}}}", arr(st), tj, ln, bb.is_cleanup));
        }
        let mut extra = String::new();
        if !promoted {
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let sti = self.ty(st);
                let _ = write!(extra, ",\"self\":{}", sti);
                if tcx.impl_opt_trait_ref(imp).is_some() {
                    let trd = tcx.impl_trait_id(imp);
                    let _ = write!(extra, ",\"trait\":{}", esc(&self.path(trd)));
                    if let Some(ti) = tcx.associated_item(did).trait_item_def_id() {
                        let _ = write!(extra, ",\"trait_item\":{}", esc(&self.path(ti)));
                    }
                    let derived = tcx.is_automatically_derived(imp);
                    let _ = write!(extra, ",\"derived\":{}", derived);
                }
            }
            if tcx.is_closure_like(did) {
                let p = tcx.typeck_root_def_id(did);
                let _ = write!(extra, ",\"root\":{}", esc(&self.path(p)));
                let mut ups = Vec::new();
                if let Some(l) = did.as_local() {
                    for c in tcx.closure_captures(l) {
                        ups.push(esc(c.var_ident.name.as_str()));
                    }
                }
                let _ = write!(extra, ",\"upvars\":{}", arr(ups));
            }
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let _ = write!(extra, ",\"unsafe\":{}", tcx.fn_sig(did).skip_binder().safety().is_unsafe());
                let _ = write!(extra, ",\"vis\":{}", esc(&format!("{:?}", tcx.visibility(did))));
            }
        }
        format!(
            "{{\"id\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"args\":{},\"locals\":{},\"vars\":{},\"blocks\":{}{}}}",
            esc(&id), kind, esc(&file), line, body.arg_count, arr(locals), arr(vars), arr(blocks), extra
        )
    }
}

struct Dump {
    out: String,
}

impl rustc_driver::Callbacks for Dump {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, types: HashMap::new(), type_json: vec![], adts: HashMap::new(), adt_json: vec![] };
        let mut fns = Vec::new();
        let mut consts = Vec::new();
        // every local ADT, used or not
        for l in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(l), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let t = tcx.type_of(l).instantiate_identity().skip_norm_wip();
                cx.ty(t);
            }
        }
        for l in tcx.hir_body_owners() {
            let did = l.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(did);
                    let id = cx.path(did);
                    let k = if kind == DefKind::Closure { "closure" } else { "fn" };
                    fns.push(cx.body(id.clone(), k, did, b, false));
                    for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                        fns.push(cx.body(format!("{}::{{promoted#{}}}", id, i.index()), "promoted", did, pb, true));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    if tcx.generics_of(did).own_counts().types == 0 {
                        let b = if matches!(kind, DefKind::Static { .. }) || true { tcx.mir_for_ctfe(did) } else { continue };
                        let id = cx.path(did);
                        fns.push(cx.body(id.clone(), "const", did, b, false));
                        for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                            fns.push(cx.body(format!("{}::{{promoted#{}}}", id, i.index()), "promoted", did, pb, true));
                        }
                        if !matches!(kind, DefKind::Static { .. }) {
                            if let Ok(ConstValue::Scalar(s)) = tcx.const_eval_poly(did) {
                                if let Ok(i) = s.try_to_scalar_int() {
                                    consts.push(format!("[{},{}]", esc(&id), esc(&i.to_bits(i.size()).to_string())));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let mut impls = Vec::new();
        for l in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(l) {
                let imp = l.to_def_id();
                let tr = cx.path(tcx.impl_trait_id(imp));
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                impls.push(format!("{{\"trait\":{},\"self\":{}}}", esc(&tr), st));
            }
        }
        let mut unsafe_blocks = Vec::new();
        {
            use rustc_hir::intravisit::{self, Visitor};
            struct V<'a, 'tcx> {
                tcx: TyCtxt<'tcx>,
                out: &'a mut Vec<(Span, rustc_hir::HirId)>,
            }
            impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
                type NestedFilter = rustc_middle::hir::nested_filter::All;
                fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
                    self.tcx
                }
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
                        self.out.push((b.span, b.hir_id));
                    }
                    intravisit::walk_block(self, b);
                }
            }
            let mut found = Vec::new();
            let mut v = V { tcx, out: &mut found };
            tcx.hir_walk_toplevel_module(&mut v);
            for (sp, hid) in found {
                let owner = cx.path(tcx.hir_enclosing_body_owner(hid).to_def_id());
                let (f, l) = cx.loc(sp);
                unsafe_blocks.push(format!("[{},{},{}]", esc(&owner), esc(&f), l));
            }
        }
        let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable");
        let json = format!(
            "{{\"crate\":{},\"bin\":{},\"types\":{},\"adts\":{},\"consts\":{},\"impls\":{},\"unsafe\":{},\"fns\":{}}}",
            esc(&krate), is_bin, format!("[{}]", cx.type_json.join(",\n")), format!("[{}]", cx.adt_json.join(",\n")),
            arr(consts), arr(impls), arr(unsafe_blocks), format!("[{}]", fns.join(",\n"))
        );
        let f = format!("{}/{}{}.json", self.out, krate, if is_bin { ".bin" } else { "" });
        std::fs::write(&f, json).expect("cannot write dump");
        rustc_driver::Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    // argv: ticdump <rustc> args...
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("TICDUMP_OUT").ok();
    let has_input = args.iter().any(|a| a.ends_with(".rs"));
    let build_script = args.iter().any(|a| a == "build_script_build");
    let code = rustc_driver::catch_with_exit_code(|| match out {
        Some(out) if has_input && !build_script => {
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out });
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    });
    code.exit_process()
}
