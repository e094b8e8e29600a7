// Fact extractor: runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check` on /repo and dumps the
// type-checked program (ADTs, impls, MIR of every body with resolved callees) of the crate named in
// VERIF_FACTS_CRATE to the file VERIF_FACTS_OUT as JSON.  It decides nothing itself.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<DefId>,
    adtset: HashMap<DefId, usize>,
    cur: Option<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let mut s = ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            // nested items of one name in different scopes of a function print alike: tell them apart
            let mut dis = String::new();
            for p in self.tcx.def_path(d).data.iter() {
                if p.disambiguator != 0
                    && matches!(
                        p.data,
                        rustc_hir::definitions::DefPathData::ValueNs(_) | rustc_hir::definitions::DefPathData::TypeNs(_)
                    )
                {
                    let _ = write!(dis, "#{}", p.disambiguator);
                }
            }
            s.push_str(&dis);
        }
        s
    }
    fn span(&self, sp: Span) -> (String, usize) {
        // the outermost expansion site, so that a macro-generated construct is reported where it is written
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match loc.file.name.clone() {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        (f, loc.line)
    }
    fn adt(&mut self, d: DefId) {
        if !self.adtset.contains_key(&d) {
            self.adtset.insert(d, self.adts.len());
            self.adts.push(d);
        }
    }
    fn generic_args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                ty::GenericArgKind::Const(_) => None,
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, idx);
        let s = ty::print::with_no_trimmed_paths!(t.to_string());
        let extra = match t.kind() {
            ty::Adt(def, args) => {
                self.adt(def.did());
                let p = self.path(def.did());
                let a = self.generic_args(args);
                format!(",\"k\":\"adt\",\"d\":{},\"a\":{}", esc(&p), a)
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!(",\"k\":\"ref\",\"m\":{},\"a\":[{}]", m.is_mut(), i)
            }
            ty::RawPtr(inner, _) => {
                let i = self.ty(*inner);
                format!(",\"k\":\"ptr\",\"a\":[{}]", i)
            }
            ty::Array(inner, _) | ty::Slice(inner) => {
                let i = self.ty(*inner);
                format!(",\"k\":\"slice\",\"a\":[{}]", i)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!(",\"k\":\"tuple\",\"a\":[{}]", v.join(","))
            }
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!(",\"k\":\"dyn\",\"d\":{}", esc(&p))
            }
            ty::Closure(d, _) => {
                let p = self.path(*d);
                format!(",\"k\":\"closure\",\"d\":{}", esc(&p))
            }
            ty::FnDef(d, args) => {
                let p = self.path(*d);
                let a = self.generic_args(args.no_bound_vars().unwrap());
                format!(",\"k\":\"fndef\",\"d\":{},\"a\":{}", esc(&p), a)
            }
            ty::FnPtr(..) => ",\"k\":\"fnptr\"".to_string(),
            ty::Param(p) => format!(",\"k\":\"param\",\"d\":{}", esc(p.name.as_str())),
            ty::Alias(..) => ",\"k\":\"alias\"".to_string(),
            ty::Bool => ",\"k\":\"bool\"".to_string(),
            ty::Int(_) | ty::Uint(_) => ",\"k\":\"int\"".to_string(),
            ty::Float(_) => ",\"k\":\"float\"".to_string(),
            ty::Str => ",\"k\":\"str\"".to_string(),
            ty::Never => ",\"k\":\"never\"".to_string(),
            _ => ",\"k\":\"other\"".to_string(),
        };
        self.types[idx] = format!("{{\"s\":{}{}}}", esc(&s), extra);
        idx
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local.as_usize());
        }
        let mut o = format!("[{}", p.local.as_usize());
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                mir::ProjectionElem::Deref => o.push_str(",\"*\""),
                mir::ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pty.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => def.variant(rustc_abi::VariantIdx::from_u32(0)),
                                None => def.non_enum_variant(),
                            };
                            let vn = v.fields[f].name.as_str().to_string();
                            vn
                        }
                        ty::Closure(d, _) => {
                            let d = *d;
                            d.as_local()
                                .and_then(|ld| {
                                    self.tcx.closure_captures(ld).get(f.as_usize()).map(|c| c.to_symbol().as_str().to_string())
                                })
                                .unwrap_or_else(|| f.as_usize().to_string())
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, ",{}", esc(&format!(".{}", name)));
                }
                mir::ProjectionElem::Downcast(_, vi) => {
                    let vn = match pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.as_str().to_string(),
                        _ => vi.as_usize().to_string(),
                    };
                    let _ = write!(o, ",{}", esc(&format!("@{}", vn)));
                }
                mir::ProjectionElem::Index(l) => {
                    let _ = write!(o, ",\"[_{}]\"", l.as_usize());
                }
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",\"[{}{}]\"", if from_end { "-" } else { "" }, offset);
                }
                mir::ProjectionElem::Subslice { .. } => o.push_str(",\"[..]\""),
                _ => o.push_str(",\"~\""),
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn alloc_str(&self, scalar_ptr: mir::interpret::Pointer, len: Option<u64>) -> Option<String> {
        let (prov, off) = scalar_ptr.into_raw_parts();
        match self.tcx.try_get_global_alloc(prov.alloc_id())? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let start = off.bytes() as usize;
                let end = len.map(|l| start + l as usize).unwrap_or(a.len());
                if end > a.len() {
                    return None;
                }
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(start..end);
                Some(String::from_utf8_lossy(b).to_string())
            }
            _ => None,
        }
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let a = self.generic_args(args);
        let mut o = format!("\"fn\":{},\"ga\":{}", esc(&p), a);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let trp = self.path(tr);
            let _ = write!(o, ",\"trait\":{},\"m\":{}", esc(&trp), esc(&tcx.opt_item_name(d).map(|s| s.as_str().to_string()).unwrap_or_default()));
            if args.len() > 0 {
                if let Some(t) = args.types().next() {
                    let i = self.ty(t);
                    let _ = write!(o, ",\"self\":{}", i);
                }
            }
        } else if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            let _ = write!(o, ",\"m\":{}", esc(&tcx.opt_item_name(d).map(|s| s.as_str().to_string()).unwrap_or_default()));
        }
        if let Some(cur) = self.cur {
            let env = ty::TypingEnv::post_analysis(tcx, cur);
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
                let rd = inst.def_id();
                if rd != d {
                    let rp = self.path(rd);
                    let _ = write!(o, ",\"res\":{}", esc(&rp));
                }
            }
        }
        o
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = format!("{{\"c\":{}", ti);
        if let ty::FnDef(d, args) = t.kind() {
            let s = self.callee(*d, args.no_bound_vars().unwrap());
            let _ = write!(o, ",{}}}", s);
            return o;
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let pp = self.path(u.def);
                let _ = write!(o, ",\"prom\":[{},{}]}}", esc(&pp), p.as_usize());
                return o;
            }
            let pp = self.path(u.def);
            let _ = write!(o, ",\"named\":{}", esc(&pp));
        }
        let env = match self.cur {
            Some(cur) => ty::TypingEnv::post_analysis(tcx, cur),
            None => ty::TypingEnv::fully_monomorphized(),
        };
        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            match v {
                mir::ConstValue::ZeroSized => o.push_str(",\"z\":1"),
                mir::ConstValue::Scalar(Scalar::Int(i)) => {
                    if t.is_bool() {
                        let _ = write!(o, ",\"v\":{}", i.to_bits(i.size()) != 0);
                    } else if t.is_signed() {
                        let _ = write!(o, ",\"v\":{}", i.to_int(i.size()));
                    } else {
                        let _ = write!(o, ",\"v\":{}", i.to_bits(i.size()));
                    }
                }
                mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, _) = p.into_raw_parts();
                    match tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(GlobalAlloc::Static(d)) => {
                            let sp = self.path(d);
                            let _ = write!(o, ",\"static\":{}", esc(&sp));
                        }
                        Some(GlobalAlloc::Memory(_)) => {
                            if let Some(s) = self.alloc_str(p, None) {
                                let _ = write!(o, ",\"mem\":{}", esc(&s));
                            }
                        }
                        _ => {}
                    }
                }
                mir::ConstValue::Slice { alloc_id, meta } => {
                    if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                        let a = a.inner();
                        let n = (meta as usize).min(a.len());
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                        let _ = write!(o, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                    }
                }
                mir::ConstValue::Indirect { .. } => o.push_str(",\"ind\":1"),
            }
        }
        o.push('}');
        o
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, op: &mir::Operand<'tcx>) -> String {
        match op {
            mir::Operand::Copy(p) | mir::Operand::Move(p) => self.place(body, p),
            mir::Operand::Constant(c) => self.constant(c),
            _ => "{\"rt\":1}".to_string(),
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> String {
        match r {
            mir::Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(body, op)),
            mir::Rvalue::Repeat(op, _) => format!("[\"repeat\",{}]", self.operand(body, op)),
            mir::Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                matches!(bk, mir::BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            mir::Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(body, p)),
            mir::Rvalue::Cast(k, op, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(body, op), ti)
            }
            mir::Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", b)),
                self.operand(body, &ops.0),
                self.operand(body, &ops.1)
            ),
            mir::Rvalue::UnaryOp(u, op) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.operand(body, op))
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(body, p), ti)
            }
            mir::Rvalue::CopyForDeref(p) => format!("[\"use\",{}]", self.place(body, p)),
            mir::Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                let vals = v.join(",");
                match &**k {
                    mir::AggregateKind::Adt(d, vi, _, _, active) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        let p = self.path(*d);
                        let names: Vec<String> = match active {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!(
                            "[\"adt\",{},{},[{}],[{}]]",
                            esc(&p),
                            esc(if def.is_enum() { var.name.as_str() } else { "" }),
                            names.join(","),
                            vals
                        )
                    }
                    mir::AggregateKind::Closure(d, _) => {
                        let p = self.path(*d);
                        let names: Vec<String> = d
                            .as_local()
                            .map(|ld| {
                                self.tcx
                                    .closure_captures(ld)
                                    .iter()
                                    .map(|c| esc(c.to_symbol().as_str()))
                                    .collect()
                            })
                            .unwrap_or_default();
                        format!("[\"closure\",{},[{}],[{}]]", esc(&p), names.join(","), vals)
                    }
                    mir::AggregateKind::Array(_) => format!("[\"array\",[{}]]", vals),
                    mir::AggregateKind::Tuple => format!("[\"tuple\",[{}]]", vals),
                    _ => format!("[\"agg\",[{}]]", vals),
                }
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other).chars().take(60).collect::<String>())),
        }
    }

    fn body(&mut self, body: &mir::Body<'tcx>) -> String {
        let mut o = String::new();
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, "\"args\":{},\"locals\":[{}],\"names\":{{", body.arg_count, locals.join(","));
        let mut first = true;
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if let Some(l) = p.as_local() {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", l.as_usize(), esc(v.name.as_str()));
                }
            }
        }
        o.push_str("},\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    mir::StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let (_, line) = self.span(st.source_info.span);
                        let ps = self.place(body, p);
                        let rs = self.rvalue(body, r);
                        format!("[{},{},{}]", ps, rs, line)
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let (_, line) = self.span(st.source_info.span);
                        format!("[{},[\"setdiscr\",{}],{}]", self.place(body, place), variant_index.as_usize(), line)
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let (_, line) = self.span(term.source_info.span);
            match &term.kind {
                mir::TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", target.as_usize());
                }
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, self.tcx);
                    let ti = self.ty(t);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = if t.is_signed() {
                                // sign-extend
                                let sz = match t.kind() {
                                    ty::Int(i) => i.bit_width().unwrap_or(64),
                                    _ => 64,
                                };
                                let sh = 128 - sz;
                                (((v as i128) << sh) >> sh).to_string()
                            } else {
                                v.to_string()
                            };
                            format!("[{},{}]", vs, b.as_usize())
                        })
                        .collect();
                    let _ = write!(
                        o,
                        "[\"switch\",{},[{}],{},{}]",
                        self.operand(body, discr),
                        v.join(","),
                        targets.otherwise().as_usize(),
                        ti
                    );
                }
                mir::TerminatorKind::Return => o.push_str("[\"return\"]"),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let ti = self.ty(t);
                    let ps = self.place(body, place);
                    let _ = write!(o, "[\"drop\",{},{},{}]", ps, target.as_usize(), ti);
                }
                mir::TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(body, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                    let d = self.place(body, destination);
                    let (_, cl) = self.span(*fn_span);
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    let mac = {
                        let sp = *fn_span;
                        if sp.from_expansion() {
                            let e = sp.ctxt().outer_expn_data();
                            format!("{}", e.kind.descr())
                        } else {
                            String::new()
                        }
                    };
                    let _ = write!(o, "[\"call\",{},[{}],{},{},{},{}]", f, a.join(","), d, tg, cl, esc(&mac));
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, cond);
                    let m = format!("{:?}", msg);
                    let m: String = m.chars().take(80).collect();
                    let _ = write!(o, "[\"assert\",{},{},{},{}]", c, expected, esc(&m), target.as_usize());
                }
                mir::TerminatorKind::Unreachable => o.push_str("[\"unreachable\"]"),
                mir::TerminatorKind::FalseEdge { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_usize());
                }
                mir::TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_usize());
                }
                k => {
                    let _ = write!(o, "[\"other\",{}]", esc(&format!("{:?}", k).chars().take(60).collect::<String>()));
                }
            }
            let _ = write!(o, ",\"l\":{}}}", line);
        }
        o.push(']');
        o
    }
}

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let want = std::env::var("VERIF_FACTS_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want {
            return rustc_driver::Compilation::Continue;
        }
        let Ok(out) = std::env::var("VERIF_FACTS_OUT") else {
            return rustc_driver::Compilation::Continue;
        };
        let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: vec![], adtset: HashMap::new(), cur: None };
        let mut fns: Vec<String> = vec![];
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let ks = match kind {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "assoc",
                DefKind::Closure => "closure",
                DefKind::Static { .. } => "static",
                DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
                _ => continue,
            };
            cx.cur = Some(d);
            let is_fn = matches!(ks, "fn" | "assoc" | "closure");
            let body = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            let p = cx.path(d);
            let (f, line) = cx.span(tcx.def_span(d));
            let mut o = format!("{{\"path\":{},\"kind\":\"{}\",\"file\":{},\"line\":{}", esc(&p), ks, esc(&f), line);
            if ks == "closure" {
                let pp = cx.path(tcx.parent(d));
                let _ = write!(o, ",\"parent\":{}", esc(&pp));
            } else {
                let _ = write!(o, ",\"name\":{}", esc(&tcx.opt_item_name(d).map(|s| s.as_str().to_string()).unwrap_or_default()));
                let par = tcx.parent(d);
                if matches!(tcx.def_kind(par), DefKind::Impl { .. }) {
                    let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                    let si = cx.ty(st);
                    let _ = write!(o, ",\"iself\":{}", si);
                    if let Some(tr) = tcx.impl_opt_trait_ref(par) {
                        let tp = cx.path(tr.skip_binder().def_id);
                        let _ = write!(o, ",\"itrait\":{}", esc(&tp));
                    }
                } else if matches!(tcx.def_kind(par), DefKind::Trait) {
                    let tp = cx.path(par);
                    let _ = write!(o, ",\"deftrait\":{}", esc(&tp));
                }
            }
            if is_fn && ks != "closure" {
                let unsafe_ = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
                let _ = write!(o, ",\"unsafe\":{}", unsafe_);
            }
            let bs = cx.body(body);
            let _ = write!(o, ",{}", bs);
            if is_fn {
                let proms = tcx.promoted_mir(d);
                if !proms.is_empty() {
                    let v: Vec<String> = proms.iter().map(|b| format!("{{{}}}", cx.body(b))).collect();
                    let _ = write!(o, ",\"promoted\":[{}]", v.join(","));
                }
            }
            o.push('}');
            fns.push(o);
        }
        cx.cur = None;
        // impls
        let mut impls: Vec<String> = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(d),
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let si = cx.ty(st);
                    let mut o = format!("{{\"self\":{}", si);
                    let (f, line) = cx.span(tcx.def_span(d));
                    let _ = write!(o, ",\"file\":{},\"line\":{}", esc(&f), line);
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let tp = cx.path(tr.def_id);
                        let a = cx.generic_args(tr.args);
                        let _ = write!(o, ",\"trait\":{},\"targs\":{}", esc(&tp), a);
                    }
                    let mut its: Vec<String> = vec![];
                    for &it in tcx.associated_item_def_ids(d) {
                        let nm = esc(&tcx.opt_item_name(it).map(|s| s.as_str().to_string()).unwrap_or_default());
                        match tcx.def_kind(it) {
                            DefKind::AssocTy => {
                                let t = tcx.type_of(it).instantiate_identity().skip_norm_wip();
                                let ti = cx.ty(t);
                                its.push(format!("[\"type\",{},{}]", nm, ti));
                            }
                            DefKind::AssocFn => {
                                let p = cx.path(it);
                                its.push(format!("[\"fn\",{},{}]", nm, esc(&p)));
                            }
                            _ => {
                                let p = cx.path(it);
                                its.push(format!("[\"const\",{},{}]", nm, esc(&p)));
                            }
                        }
                    }
                    let _ = write!(o, ",\"items\":[{}]}}", its.join(","));
                    impls.push(o);
                }
                _ => {}
            }
        }
        // adts (the list grows while field types are interned)
        let mut adts: Vec<String> = vec![];
        let mut i = 0;
        while i < cx.adts.len() {
            let d = cx.adts[i];
            i += 1;
            let def = tcx.adt_def(d);
            let p = cx.path(d);
            let (f, line) = cx.span(tcx.def_span(d));
            let k = if def.is_enum() {
                "enum"
            } else if def.is_union() {
                "union"
            } else {
                "struct"
            };
            let mut vs: Vec<String> = vec![];
            let discrs: Vec<u128> =
                if def.is_enum() { def.discriminants(tcx).map(|(_, x)| x.val).collect() } else { vec![0] };
            for (vi, v) in def.variants().iter_enumerated() {
                let mut fsv: Vec<String> = vec![];
                for fd in &v.fields {
                    let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                    // only expand the types of local ADTs fully: external private fields are still recorded
                    let ti = cx.ty(t);
                    fsv.push(format!("[{},{}]", esc(fd.name.as_str()), ti));
                }
                vs.push(format!("[{},{},[{}]]", esc(v.name.as_str()), discrs[vi.as_usize()], fsv.join(",")));
            }
            let generics: Vec<String> = tcx
                .generics_of(d)
                .own_params
                .iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| esc(p.name.as_str()))
                .collect();
            adts.push(format!(
                "{{\"path\":{},\"k\":\"{}\",\"local\":{},\"file\":{},\"line\":{},\"g\":[{}],\"v\":[{}]}}",
                esc(&p),
                k,
                d.is_local(),
                esc(&f),
                line,
                generics.join(","),
                vs.join(",")
            ));
        }
        let s = format!(
            "{{\"fns\":[\n{}\n],\"impls\":[\n{}\n],\"adts\":[\n{}\n],\"types\":[\n{}\n]}}\n",
            fns.join(",\n"),
            impls.join(",\n"),
            adts.join(",\n"),
            cx.types.join(",\n")
        );
        std::fs::write(&out, s).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
