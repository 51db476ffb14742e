//! rustc driver used as RUSTC_WORKSPACE_WRAPPER: compiles as usual and, for the crate named in
//! MIRDUMP_CRATE, writes the resolved MIR of every function (JSON) to MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn opaque_def(t: Ty<'_>) -> Option<DefId> {
    match t.kind() { ty::Alias(_, a) => match a.kind { ty::AliasTyKind::Opaque { def_id } => Some(def_id), _ => None }, _ => None }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn bytes_json(b: &[u8]) -> String {
    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { self.tcx.def_path_str(d) }
    fn id(&self, d: DefId) -> String {
        // crate-stable unique id
        format!("{}{}", if d.is_local() { "" } else { "ext:" }, self.tcx.def_path(d).to_string_no_crate_verbose())
            + &if d.is_local() { String::new() } else { format!("@{}", self.tcx.crate_name(d.krate)) }
    }
    fn loc(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, l.line)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let idx = self.tys.len();
        self.tys.push(String::new());
        self.tymap.insert(t, idx);
        let s = match t.kind() {
            ty::Bool => r#"{"k":"bool"}"#.into(),
            ty::Char => r#"{"k":"char"}"#.into(),
            ty::Str => r#"{"k":"str"}"#.into(),
            ty::Never => r#"{"k":"never"}"#.into(),
            ty::Int(i) => format!(r#"{{"k":"int","n":"{}","s":1}}"#, i.name_str()),
            ty::Uint(i) => format!(r#"{{"k":"int","n":"{}","s":0}}"#, i.name_str()),
            ty::Float(f) => format!(r#"{{"k":"float","n":"{}"}}"#, f.name_str()),
            ty::Param(p) => format!(r#"{{"k":"param","n":{}}}"#, esc(p.name.as_str())),
            ty::Ref(_, t2, m) => { let i = self.ty(*t2); format!(r#"{{"k":"ref","m":{},"t":{}}}"#, m.is_mut() as u8, i) }
            ty::RawPtr(t2, m) => { let i = self.ty(*t2); format!(r#"{{"k":"ptr","m":{},"t":{}}}"#, m.is_mut() as u8, i) }
            ty::Slice(t2) => { let i = self.ty(*t2); format!(r#"{{"k":"slice","t":{}}}"#, i) }
            ty::Array(t2, n) => { let i = self.ty(*t2); format!(r#"{{"k":"array","t":{},"n":{}}}"#, i, esc(&format!("{}", n))) }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect(); format!(r#"{{"k":"tuple","a":[{}]}}"#, v.join(",")) }
            ty::Adt(d, args) => {
                let v: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                self.adt(d.did());
                format!(r#"{{"k":"adt","d":{},"p":{},"a":[{}]}}"#, esc(&self.id(d.did())), esc(&self.path(d.did())), v.join(","))
            }
            ty::Closure(d, args) => {
                let v: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!(r#"{{"k":"closure","d":{},"a":[{}]}}"#, esc(&self.id(*d)), v.join(","))
            }
            ty::FnDef(d, _) => format!(r#"{{"k":"fndef","d":{},"p":{}}}"#, esc(&self.id(*d)), esc(&self.path(*d))),
            ty::FnPtr(sig, _) => { let o = self.ty(sig.skip_binder().output()); let v: Vec<String> = sig.skip_binder().inputs().iter().map(|x| self.ty(*x).to_string()).collect(); format!(r#"{{"k":"fnptr","o":{},"i":[{}]}}"#, o, v.join(",")) }
            ty::Dynamic(..) => r#"{"k":"dyn"}"#.into(),
            _ => format!(r#"{{"k":"other","n":{}}}"#, esc(&format!("{:?}", t))),
        };
        // add display string
        let disp = format!("{}", t);
        let s = format!("{},\"str\":{}}}", &s[..s.len() - 1], esc(&disp));
        self.tys[idx] = s;
        idx
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) { return; }
        self.adts.insert(d, String::new());
        let a = self.tcx.adt_def(d);
        let local = d.is_local();
        let mut vs = vec![];
        for (vi, v) in a.variants().iter_enumerated() {
            let discr = if a.is_enum() { a.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
            let fs: Vec<String> = v.fields.iter().map(|f| {
                let vis = if local { format!("{:?}", f.vis) } else { String::new() };
                let tyi = if local { let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); self.ty(t).to_string() } else { "null".into() };
                format!(r#"{{"n":{},"vis":{},"ty":{}}}"#, esc(f.name.as_str()), esc(&vis), tyi)
            }).collect();
            vs.push(format!(r#"{{"n":{},"d":{},"f":[{}]}}"#, esc(v.name.as_str()), discr, fs.join(",")));
        }
        let gen: Vec<String> = self.tcx.generics_of(d).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| esc(p.name.as_str())).collect();
        let s = format!(r#"{{"path":{},"enum":{},"local":{},"gen":[{}],"v":[{}]}}"#, esc(&self.path(d)), a.is_enum(), local, gen.join(","), vs.join(","));
        self.adts.insert(d, s);
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => r#"["*"]"#.to_string(),
                ProjectionElem::Field(f, t) => { let ti = self.ty(t); format!(r#"["f",{},{}]"#, f.index(), ti) }
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.index()),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => format!(r#"["ci",{},{}]"#, offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["ss",{},{},{}]"#, from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!(r#"["d",{}]"#, v.index()),
                _ => r#"["?"]"#.to_string(),
            });
        }
        format!("[{},[{}]]", p.local.index(), v.join(","))
    }
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec())
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let tcx = self.tcx;
        match t.kind() {
            ty::FnDef(d, args) => {
                let (d, args) = (*d, args.skip_binder());
                return format!(r#"{{"k":"fn","t":{},"fn":{}}}"#, ti, self.fnref(d, args, env));
            }
            _ => {}
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(r#"{{"k":"promoted","t":{},"d":{},"i":{}}}"#, ti, esc(&self.id(u.def)), p.index());
            }
        }
        let ev = c.const_.eval(tcx, env, c.span);
        if let Ok(v) = ev {
            match (v, t.kind()) {
                (ConstValue::Scalar(mir::interpret::Scalar::Int(i)), _) => {
                    let bits = i.to_bits(i.size());
                    let val = match t.kind() {
                        ty::Int(_) => format!("{}", i.to_int(i.size())),
                        _ => format!("{}", bits),
                    };
                    return format!(r#"{{"k":"int","t":{},"v":"{}"}}"#, ti, val);
                }
                (ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) => {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        let aid = p.provenance.alloc_id();
                        match tcx.global_alloc(aid) {
                            rustc_middle::mir::interpret::GlobalAlloc::Static(d) =>
                                return format!(r#"{{"k":"static","t":{},"d":{}}}"#, ti, esc(&self.path(d))),
                            _ => {}
                        }
                        if let Some(b) = self.alloc_bytes(aid) {
                            let inn = self.ty(*inner);
                            return format!(r#"{{"k":"refbytes","t":{},"inner":{},"b":{}}}"#, ti, inn, bytes_json(&b));
                        }
                    } else if let ty::RawPtr(..) = t.kind() {
                        let aid = p.provenance.alloc_id();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(aid) {
                            return format!(r#"{{"k":"static","t":{},"d":{}}}"#, ti, esc(&self.path(d)));
                        }
                    }
                }
                (ConstValue::ZeroSized, _) => return format!(r#"{{"k":"zst","t":{}}}"#, ti),
                (ConstValue::Slice { alloc_id, meta }, _) => {
                    if let Some(b) = self.alloc_bytes(alloc_id) {
                        let n = (meta as usize).min(b.len());
                        return format!(r#"{{"k":"slice","t":{},"b":{}}}"#, ti, bytes_json(&b[..n]));
                    }
                }
                _ => {}
            }
        }
        format!(r#"{{"k":"opaque","t":{},"s":{}}}"#, ti, esc(&format!("{:?}", c.const_)))
    }
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut resolved = String::from("null");
        let mut ra = vec![];
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
                let rd = inst.def_id();
                if let ty::InstanceKind::Item(_) = inst.def {
                    resolved = esc(&self.id(rd));
                }
            }
        }
        for t in args.types() { ra.push(self.ty(t).to_string()); }
        let tr = match tcx.opt_associated_item(d).and_then(|a| a.trait_container(tcx)) {
            Some(t) => esc(&self.path(t)),
            None => "null".into(),
        };
        let imp = match tcx.opt_associated_item(d).and_then(|a| a.impl_container(tcx)) {
            Some(t) => { let s = tcx.type_of(t).instantiate_identity().skip_norm_wip(); esc(&format!("{}", s)) }
            None => "null".into(),
        };
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        format!(r#"{{"d":{},"p":{},"name":{},"trait":{},"impl":{},"res":{},"a":[{}],"local":{},"kind":{}}}"#,
            esc(&self.id(d)), esc(&self.path(d)), esc(&name), tr, imp, resolved, ra.join(","), d.is_local(),
            esc(&format!("{:?}", tcx.def_kind(d))))
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["c",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["m",{}]"#, self.place(p)),
            Operand::Constant(c) => format!(r#"["k",{}]"#, self.konst(c, env)),
            _ => r#"["rt"]"#.to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!(r#"["use",{}]"#, self.operand(o, env)),
            Rvalue::Repeat(o, n) => format!(r#"["repeat",{},{}]"#, self.operand(o, env), esc(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => format!(r#"["ref",{},{}]"#, matches!(k, BorrowKind::Mut { .. }) as u8, self.place(p)),
            Rvalue::RawPtr(k, p) => format!(r#"["rawptr",{},{}]"#, matches!(k, RawPtrKind::Mut) as u8, self.place(p)),
            Rvalue::Cast(k, o, t) => { let ti = self.ty(*t); format!(r#"["cast",{},{},{}]"#, esc(&format!("{:?}", k)), self.operand(o, env), ti) }
            Rvalue::BinaryOp(b, ops) => format!(r#"["bin",{},{},{}]"#, esc(&format!("{:?}", b)), self.operand(&ops.0, env), self.operand(&ops.1, env)),
            Rvalue::UnaryOp(u, o) => format!(r#"["un",{},{}]"#, esc(&format!("{:?}", u)), self.operand(o, env)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|f| self.operand(f, env)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => r#"["array"]"#.to_string(),
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(d, vi, ..) => { self.adt(*d); format!(r#"["adt",{},{}]"#, esc(&self.id(*d)), vi.index()) }
                    AggregateKind::Closure(d, _) => format!(r#"["closure",{}]"#, esc(&self.id(*d))),
                    AggregateKind::RawPtr(..) => r#"["rawptr"]"#.to_string(),
                    _ => r#"["other"]"#.to_string(),
                };
                format!(r#"["agg",{},[{}]]"#, ks, v.join(","))
            }
            other => format!(r#"["other",{}]"#, esc(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut locals = vec![];
        for d in b.local_decls.iter() { locals.push(self.ty(d.ty).to_string()); }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let ps = self.place(p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), ps));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        let l = self.loc(s.source_info.span);
                        let ps = self.place(p);
                        let rs = self.rvalue(r, env);
                        st.push(format!(r#"["=",{},{},{}]"#, ps, rs, esc(&l)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } =>
                        st.push(format!(r#"["sd",{},{}]"#, self.place(place), variant_index.index())),
                    StatementKind::StorageDead(l) => st.push(format!(r#"["dead",{}]"#, l.index())),
                    StatementKind::StorageLive(l) => st.push(format!(r#"["live",{}]"#, l.index())),
                    StatementKind::Intrinsic(i) => st.push(format!(r#"["intr",{}]"#, esc(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let l = self.loc(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!(r#"["{}",{}]"#, v, t.index())).collect();
                    let ty = discr.ty(&b.local_decls, self.tcx);
                    let ti = self.ty(ty);
                    format!(r#"["switch",{},[{}],{},{},{}]"#, self.operand(discr, env), v.join(","), targets.otherwise().index(), ti, esc(&l))
                }
                TerminatorKind::Return => r#"["ret"]"#.into(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => r#"["resume"]"#.into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let ti = self.ty(pt);
                    format!(r#"["drop",{},{},{},{}]"#, self.place(place), target.index(), ti, esc(&l))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let v: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&b.local_decls, self.tcx); self.ty(t).to_string() }).collect();
                    let dt = destination.ty(&b.local_decls, self.tcx).ty; let dti = self.ty(dt);
                    format!(r#"["call",{},[{}],{},{},{},[{}],{}]"#, self.operand(func, env), v.join(","), self.place(destination),
                        target.map(|t| t.index().to_string()).unwrap_or("null".into()), esc(&l), at.join(","), dti)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(r#"["bounds",{},{}]"#, self.operand(len, env), self.operand(index, env)),
                        AssertKind::DivisionByZero(o) | AssertKind::RemainderByZero(o) => format!(r#"["div0",{}]"#, self.operand(o, env)),
                        AssertKind::Overflow(op, a, b2) => format!(r#"["ovf",{},{},{}]"#, esc(&format!("{:?}", op)), self.operand(a, env), self.operand(b2, env)),
                        o => format!(r#"["other",{}]"#, esc(&format!("{:?}", o))),
                    };
                    format!(r#"["assert",{},{},{},{},{}]"#, self.operand(cond, env), expected, m, target.index(), esc(&l))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!(r#"["goto",{}]"#, real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!(r#"["goto",{}]"#, real_target.index()),
                o => format!(r#"["other",{}]"#, esc(&format!("{:?}", o))),
            };
            blocks.push(format!(r#"{{"s":[{}],"t":{},"c":{}}}"#, st.join(","), ts, bb.is_cleanup));
        }
        format!(r#"{{"argc":{},"locals":[{}],"names":[{}],"blocks":[{}]}}"#, b.arg_count, locals.join(","), names.join(","), blocks.join(","))
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() != want { return Compilation::Continue; }
        let out = match std::env::var("MIRDUMP_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let mut cx = Cx { tcx, tys: vec![], tymap: HashMap::new(), adts: HashMap::new() };
        let mut fns = vec![];
        for ldid in tcx.hir_body_owners() {
            let d = ldid.to_def_id();
            let kind = tcx.def_kind(d);
            let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !isfn { continue; }
            let env = TypingEnv::post_analysis(tcx, d);
            let b = tcx.optimized_mir(d);
            let body = cx.body(b, env);
            let mut prom = vec![];
            for p in tcx.promoted_mir(d).iter() { prom.push(cx.body(p, env)); }
            let mut preds = vec![];
            for c in tcx.param_env(d).caller_bounds() {
                if let Some(tc) = c.as_trait_clause() {
                    let st = tc.skip_binder().self_ty();
                    if let ty::Param(p) = st.kind() { preds.push(format!("[{},{}]", esc(p.name.as_str()), esc(&cx.path(tc.skip_binder().def_id())))); }
                }
            }
            let mut info = format!(",\"preds\":[{}]", preds.join(","));
            let mut pa = vec![];
            for c in tcx.param_env(d).caller_bounds() {
                if let Some(tc) = c.as_trait_clause() {
                    let tr = tc.skip_binder().trait_ref;
                    let v: Vec<String> = tr.args.types().skip(1).map(|x| cx.ty(x).to_string()).collect();
                    if !v.is_empty() { pa.push(format!("[{},{},[{}]]", esc(&tr.self_ty().to_string()), esc(&cx.path(tr.def_id)), v.join(","))); }
                }
            }
            info += &format!(",\"predargs\":[{}]", pa.join(","));
            if kind != DefKind::Closure {
                let eff = tcx.effective_visibilities(()).is_reachable(ldid);
                let exported = tcx.effective_visibilities(()).is_exported(ldid);
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                let ins: Vec<String> = sig.inputs().skip_binder().iter().map(|t| cx.ty(*t).to_string()).collect();
                let o = cx.ty(sig.output().skip_binder());
                let mut hidden = vec![];
                for x in sig.output().skip_binder().walk() {
                    if let Some(x) = x.as_type() {
                        if let ty::Alias(..) = x.kind() {
                            if let Some(od) = opaque_def(x) {
                                for (c, _) in tcx.explicit_item_bounds(od).iter_identity_copied().map(|z| z.skip_norm_wip()) {
                                    if let Some(pc) = c.as_projection_clause() {
                                        if let Some(t) = pc.skip_binder().term.as_type() { hidden.push(cx.ty(t).to_string()); }
                                    }
                                }
                            }
                        }
                    }
                }
                info += &format!(",\"yields\":[{}]", hidden.join(","));
                let (mut im, mut tr) = ("null".to_string(), "null".to_string());
                if let Some(ai) = tcx.opt_associated_item(d) {
                    if let Some(i) = ai.impl_container(tcx) {
                        let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                        let sti = cx.ty(st); im = sti.to_string();
                        if let Some(t) = tcx.impl_opt_trait_ref(i) {
                            let t = t.instantiate_identity().skip_norm_wip();
                            let ts: Vec<String> = t.args.types().map(|x| cx.ty(x).to_string()).collect();
                            tr = format!(r#"{{"p":{},"a":[{}]}}"#, esc(&cx.path(t.def_id)), ts.join(","));
                        }
                    } else if let Some(t) = ai.trait_container(tcx) {
                        tr = format!(r#"{{"p":{},"a":[],"default":true}}"#, esc(&cx.path(t)));
                    }
                }
                let unsafe_ = !sig.safety().is_safe();
                info += &format!(r#","pub":{},"exported":{},"ins":[{}],"out":{},"self":{},"trait":{},"unsafe":{},"vis":{}"#,
                    eff, exported, ins.join(","), o, im, tr, unsafe_, esc(&format!("{:?}", tcx.visibility(d))));
            }
            let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            fns.push(format!(r#"{{"id":{},"path":{},"name":{},"kind":"{:?}","loc":{},"body":{},"prom":[{}]{}}}"#,
                esc(&cx.id(d)), esc(&cx.path(d)), esc(&name), kind, esc(&cx.loc(tcx.def_span(d))), body, prom.join(","), info));
        }
        // items: statics, consts, traits
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                items.push(format!(r#"{{"kind":{},"path":{},"ty":{},"loc":{}}}"#, esc(&format!("{:?}", k)), esc(&cx.path(d)), ti, esc(&cx.loc(tcx.def_span(d)))));
            }
            if matches!(k, DefKind::Struct | DefKind::Enum) { cx.adt(d); }
            if let DefKind::Impl { .. } = k {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(d).map(|t| format!("{}", t.instantiate_identity().skip_norm_wip())).unwrap_or_default();
                let names: Vec<String> = tcx.associated_item_def_ids(d).iter().map(|x| esc(&tcx.opt_item_name(*x).map(|s| s.to_string()).unwrap_or_default())).collect();
                items.push(format!(r#"{{"kind":"Impl","path":{},"trait":{},"items":[{}],"loc":{}}}"#, esc(&format!("{}", st)), esc(&tr), names.join(","), esc(&cx.loc(tcx.def_span(d)))));
            }
        }
        let adts: Vec<String> = { let mut v: Vec<_> = cx.adts.iter().map(|(d, s)| (cx.id(*d), s.clone())).collect(); v.sort(); v.into_iter().map(|(k, s)| format!("{}:{}", esc(&k), s)).collect() };
        let json = format!("{{\"types\":[{}],\n\"adts\":{{{}}},\n\"items\":[{}],\n\"fns\":[{}]}}\n", cx.tys.join(",\n"), adts.join(",\n"), items.join(",\n"), fns.join(",\n"));
        std::fs::write(&out, json).expect("write MIRDUMP_OUT");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && args[1].contains("rustc") { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
