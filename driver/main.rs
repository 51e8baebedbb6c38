// MIR fact extractor: a rustc driver that dumps the resolved, type-checked program (MIR with
// resolved callees, evaluated constants, ADT tables) of every workspace crate as JSON.
// It contains no rules; the rules live in /verif/analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: BTreeMap<String, String>,
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Cx<'tcx> {
    fn list<T>(&mut self, v: impl IntoIterator<Item = T>, mut f: impl FnMut(&mut Self, T) -> String) -> String {
        let parts: Vec<String> = v.into_iter().map(|x| f(self, x)).collect();
        format!("[{}]", parts.join(","))
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let tys: Vec<Ty<'tcx>> = a.types().collect();
        self.list(tys, |s, t| s.ty(t).to_string())
    }

    fn const_len(&self, c: ty::Const<'tcx>) -> String {
        match c.try_to_target_usize(self.tcx) {
            Some(n) => n.to_string(),
            None => "null".into(),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let tcx = self.tcx;
        let body = match t.kind() {
            TyKind::Bool => r#""k":"bool""#.to_string(),
            TyKind::Char => r#""k":"char""#.to_string(),
            TyKind::Int(x) => format!(r#""k":"int","n":"{}""#, x.name_str()),
            TyKind::Uint(x) => format!(r#""k":"uint","n":"{}""#, x.name_str()),
            TyKind::Float(x) => format!(r#""k":"float","n":"{}""#, x.name_str()),
            TyKind::Str => r#""k":"str""#.to_string(),
            TyKind::Never => r#""k":"never""#.to_string(),
            TyKind::Adt(def, args) => {
                let p = key(tcx, def.did());
                self.adt(*def);
                let a = self.args(args);
                let cs: Vec<String> = args.consts().map(|c| self.const_len(c)).collect();
                format!(r#""k":"adt","p":{},"pp":{},"a":{},"c":[{}]"#, q(&p), q(&tcx.def_path_str(def.did())), a, cs.join(","))
            }
            TyKind::Array(e, n) => {
                let e = self.ty(*e);
                let n = self.const_len(*n);
                format!(r#""k":"array","e":{},"len":{}"#, e, n)
            }
            TyKind::Slice(e) => {
                let e = self.ty(*e);
                format!(r#""k":"slice","e":{}"#, e)
            }
            TyKind::Ref(_, e, m) => {
                let e = self.ty(*e);
                format!(r#""k":"ref","e":{},"mut":{}"#, e, m.is_mut())
            }
            TyKind::RawPtr(e, m) => {
                let e = self.ty(*e);
                format!(r#""k":"ptr","e":{},"mut":{}"#, e, m.is_mut())
            }
            TyKind::Tuple(es) => {
                let l = self.list(es.iter(), |s, t| s.ty(t).to_string());
                format!(r#""k":"tuple","es":{}"#, l)
            }
            TyKind::FnDef(d, args) => {
                let args: ty::GenericArgsRef<'tcx> = args.skip_binder();
                let a = self.args(args);
                format!(r#""k":"fndef","p":{},"a":{}"#, q(&key(tcx, *d)), a)
            }
            TyKind::Closure(d, args) => {
                let up = args.as_closure().upvar_tys();
                let l = self.list(up.iter(), |s, t| s.ty(t).to_string());
                format!(r#""k":"closure","p":{},"up":{}"#, q(&key(tcx, *d)), l)
            }
            TyKind::Param(p) => format!(r#""k":"param","n":{}"#, q(p.name.as_str())),
            TyKind::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            TyKind::Dynamic(..) => r#""k":"dyn""#.to_string(),
            _ => r#""k":"other""#.to_string(),
        };
        self.ty_out[i] = format!("{{{},\"s\":{}}}", body, q(&format!("{}", t)));
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let tcx = self.tcx;
        let p = key(tcx, def.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), String::new());
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = Vec::new();
        let discrs: Vec<String> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, d)| {
                format!("{}", d.val)
            }).collect()
        } else {
            vec!["0".into()]
        };
        for (vi, v) in def.variants().iter().enumerate() {
            let local = def.did().is_local();
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let vis = format!("{:?}", f.vis);
                if local {
                    let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = self.ty(fty);
                    fs.push(format!(r#"{{"n":{},"t":{},"vis":{}}}"#, q(f.name.as_str()), t, q(&vis)));
                } else {
                    fs.push(format!(r#"{{"n":{},"vis":{}}}"#, q(f.name.as_str()), q(&vis)));
                }
            }
            vs.push(format!(r#"{{"n":{},"d":{},"f":[{}]}}"#, q(v.name.as_str()), discrs.get(vi).cloned().unwrap_or("0".into()), fs.join(",")));
        }
        let s = format!(r#"{{"kind":"{}","variants":[{}]}}"#, kind, vs.join(","));
        self.adts.insert(p, s);
    }

    // ---- constants ----
    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, depth: u32) -> Option<String> {
        match s {
            Scalar::Int(i) => {
                let size = i.size();
                match t.kind() {
                    TyKind::Int(_) => Some(format!(r#"{{"i":"{}"}}"#, i.to_int(size))),
                    TyKind::Uint(_) => Some(format!(r#"{{"i":"{}"}}"#, i.to_uint(size))),
                    TyKind::Bool => Some(format!(r#"{{"b":{}}}"#, i.to_uint(size) != 0)),
                    TyKind::Char => Some(format!(r#"{{"ch":{}}}"#, i.to_uint(size))),
                    TyKind::Float(f) => {
                        let b = i.to_uint(size);
                        let v = match f.bit_width() {
                            32 => f32::from_bits(b as u32) as f64,
                            64 => f64::from_bits(b as u64),
                            _ => return None,
                        };
                        Some(format!(r#"{{"f":{},"bits":"{}"}}"#, q(&format!("{:?}", v)), b))
                    }
                    TyKind::Adt(..) => self.destructure(ConstValue::Scalar(s), t, depth),
                    _ => None,
                }
            }
            Scalar::Ptr(p, _) => {
                if let TyKind::Ref(_, inner, _) = t.kind() {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    match self.tcx.global_alloc(aid) {
                        GlobalAlloc::Memory(_) => {
                            let v = ConstValue::Indirect { alloc_id: aid, offset: off };
                            let r = self.cval(v, *inner, depth + 1)?;
                            Some(format!(r#"{{"ref":{}}}"#, r))
                        }
                        GlobalAlloc::Static(d) => Some(format!(r#"{{"static":{}}}"#, q(&key(self.tcx, d)))),
                        _ => None,
                    }
                } else {
                    None
                }
            }
        }
    }

    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: u32) -> Option<String> {
        if depth > 8 {
            return None;
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let fields: Vec<(ConstValue, Ty<'tcx>)> = d.fields.to_vec();
        let l = self.list(fields, |s, (fv, ft)| s.cval(fv, ft, depth + 1).unwrap_or("null".into()));
        match t.kind() {
            TyKind::Array(..) => Some(format!(r#"{{"arr":{}}}"#, l)),
            TyKind::Tuple(..) => Some(format!(r#"{{"tup":{}}}"#, l)),
            TyKind::Adt(def, _) => {
                let vi = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                Some(format!(r#"{{"adt":{},"v":{},"f":{}}}"#, q(&key(self.tcx, def.did())), vi, l))
            }
            _ => None,
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: u32) -> Option<String> {
        if depth > 8 {
            return None;
        }
        match v {
            ConstValue::Scalar(s) => self.scalar(s, t, depth),
            ConstValue::ZeroSized => match t.kind() {
                TyKind::Adt(def, _) if def.is_struct() => Some(format!(r#"{{"adt":{},"v":0,"f":[]}}"#, q(&key(self.tcx, def.did())))),
                TyKind::Tuple(es) if es.is_empty() => Some(r#"{"tup":[]}"#.into()),
                TyKind::Array(..) => Some(r#"{"arr":[]}"#.into()),
                _ => Some(r#"{"zst":true}"#.into()),
            },
            ConstValue::Slice { .. } => {
                let bytes = v.try_get_slice_bytes_for_diagnostics(self.tcx)?;
                Some(self.bytes(bytes, t))
            }
            ConstValue::Indirect { alloc_id, offset } => {
                // scalar-ish types: read directly
                let env = TypingEnv::fully_monomorphized();
                let layout = self.tcx.layout_of(env.as_query_input(t)).ok()?;
                match t.kind() {
                    TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Float(_) => {
                        let alloc = self.tcx.global_alloc(alloc_id).unwrap_memory();
                        let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                            offset.bytes_usize()..(offset + layout.size).bytes_usize());
                        let mut x: u128 = 0;
                        for (i, by) in b.iter().enumerate() {
                            x |= (*by as u128) << (8 * i);
                        }
                        let si = ty::ScalarInt::try_from_uint(x, layout.size)?;
                        self.scalar(Scalar::Int(si), t, depth)
                    }
                    TyKind::Ref(_, inner, _) => {
                        let alloc = self.tcx.global_alloc(alloc_id).unwrap_memory();
                        let a = alloc.inner();
                        let (prov, _) = a.provenance().ptrs().iter()
                            .find(|(o, _)| *o == offset).map(|(o, p)| (*p, *o))?;
                        let psz = self.tcx.data_layout.pointer_size();
                        let rd = |o: usize| {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + psz.bytes_usize());
                            let mut x: u64 = 0;
                            for (i, by) in b.iter().enumerate() { x |= (*by as u64) << (8 * i); }
                            x
                        };
                        let poff = rd(offset.bytes_usize());
                        let aid = prov.alloc_id();
                        match inner.kind() {
                            TyKind::Str | TyKind::Slice(_) => {
                                let len = rd(offset.bytes_usize() + psz.bytes_usize()) as usize;
                                let GlobalAlloc::Memory(tgt) = self.tcx.global_alloc(aid) else { return None };
                                match inner.kind() {
                                    TyKind::Str => {
                                        let b = tgt.inner().inspect_with_uninit_and_ptr_outside_interpreter(poff as usize..poff as usize + len).to_vec();
                                        Some(self.bytes(&b, t))
                                    }
                                    TyKind::Slice(e) => {
                                        let el = self.tcx.layout_of(env.as_query_input(*e)).ok()?.size;
                                        let mut parts = Vec::new();
                                        for i in 0..len.min(4096) {
                                            let v = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(poff) + el * (i as u64) };
                                            parts.push(self.cval(v, *e, depth + 1).unwrap_or("null".into()));
                                        }
                                        Some(format!(r#"{{"ref":{{"arr":[{}]}}}}"#, parts.join(",")))
                                    }
                                    _ => None,
                                }
                            }
                            _ => match self.tcx.global_alloc(aid) {
                                GlobalAlloc::Memory(_) => {
                                    let v = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(poff) };
                                    let r = self.cval(v, *inner, depth + 1)?;
                                    Some(format!(r#"{{"ref":{}}}"#, r))
                                }
                                GlobalAlloc::Static(d) => Some(format!(r#"{{"static":{}}}"#, q(&key(self.tcx, d)))),
                                _ => None,
                            },
                        }
                    }
                    TyKind::Array(..) | TyKind::Tuple(..) | TyKind::Adt(..) => self.destructure(v, t, depth),
                    _ => None,
                }
            }
        }
    }

    fn bytes(&mut self, b: &[u8], t: Ty<'tcx>) -> String {
        let is_str = match t.kind() {
            TyKind::Ref(_, i, _) => i.is_str(),
            _ => t.is_str(),
        };
        if is_str {
            if let Ok(s) = std::str::from_utf8(b) {
                return format!(r#"{{"s":{}}}"#, q(s));
            }
        }
        let l: Vec<String> = b.iter().map(|x| format!(r#"{{"i":"{}"}}"#, x)).collect();
        format!(r#"{{"ref":{{"arr":[{}]}}}}"#, l.join(","))
    }

    fn const_op(&mut self, body_env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let TyKind::FnDef(d, args) = t.kind() {
            let args: ty::GenericArgsRef<'tcx> = args.skip_binder();
            return self.callee(body_env, *d, args, ti);
        }
        let mut name = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            name = format!(",\"name\":{}", q(&key(tcx, u.def)));
            if u.promoted.is_some() {
                name.push_str(",\"promoted\":true");
            }
        }
        let v = match c.const_.eval(tcx, body_env, c.span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => None,
        };
        format!(r#"{{"o":"const","t":{},"v":{}{}}}"#, ti, v.unwrap_or("null".into()), name)
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>, ti: usize) -> String {
        let tcx = self.tcx;
        let a = self.args(args);
        let cs: Vec<String> = args.consts().map(|c| self.const_len(c)).collect();
        let mut extra = String::new();
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(extra, ",\"trait\":{}", q(&key(tcx, tr)));
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(tcx, env, d, args)
        }));
        if let Ok(Ok(Some(inst))) = res {
            let rd = inst.def_id();
            let ra = self.args(inst.args);
            let _ = write!(extra, ",\"rp\":{},\"ra\":{},\"rlocal\":{}", q(&key(tcx, rd)), ra, rd.is_local());
            if let Some(imp) = tcx.impl_of_assoc(rd) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"rself\":{}", q(&format!("{}", st)));
            }
            let kindname = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            let _ = write!(extra, ",\"ik\":\"{}\"", kindname);
        }
        let unsafe_ = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                !sig.skip_binder().safety().is_safe()
            }
            _ => false,
        };
        format!(r#"{{"o":"fn","t":{},"p":{},"pp":{},"a":{},"c":[{}],"unsafe":{}{}}}"#,
            ti, q(&key(tcx, d)), q(&tcx.def_path_str(d)), a, cs.join(","), unsafe_, extra)
    }

    // ---- MIR ----
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let pr = self.list(p.projection.iter(), |s, e| match e {
            ProjectionElem::Deref => "\"*\"".into(),
            ProjectionElem::Field(f, t) => format!(r#"{{"f":{},"t":{}}}"#, f.as_usize(), s.ty(t)),
            ProjectionElem::Index(l) => format!(r#"{{"ix":{}}}"#, l.as_usize()),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"{{"ci":{},"min":{},"end":{}}}"#, offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!(r#"{{"sub":[{},{}],"end":{}}}"#, from, to, from_end),
            ProjectionElem::Downcast(_, v) => format!(r#"{{"dc":{}}}"#, v.as_usize()),
            _ => "\"?\"".into(),
        });
        format!(r#"{{"l":{},"p":{}}}"#, p.local.as_usize(), pr)
    }

    fn op(&mut self, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"{{"o":"copy","p":{}}}"#, self.place(p)),
            Operand::Move(p) => format!(r#"{{"o":"move","p":{}}}"#, self.place(p)),
            Operand::Constant(c) => self.const_op(env, c),
            #[allow(unreachable_patterns)]
            other => format!(r#"{{"o":"other","d":{}}}"#, q(&format!("{:?}", other))),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!(r#"{{"r":"use","a":{}}}"#, self.op(env, o)),
            Rvalue::Repeat(o, n) => {
                let n = self.const_len(*n);
                format!(r#"{{"r":"repeat","a":{},"n":{}}}"#, self.op(env, o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!(r#"{{"r":"ref","mut":{},"p":{}}}"#, m, self.place(p))
            }
            Rvalue::RawPtr(k, p) => format!(r#"{{"r":"rawptr","kind":{},"p":{}}}"#, q(&format!("{:?}", k)), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!(r#"{{"r":"cast","kind":{},"a":{},"t":{}}}"#, q(&format!("{:?}", k)), self.op(env, o), ti)
            }
            Rvalue::BinaryOp(b, ab) => {
                format!(r#"{{"r":"bin","op":{},"a":{},"b":{}}}"#, q(&format!("{:?}", b)), self.op(env, &ab.0), self.op(env, &ab.1))
            }
            Rvalue::UnaryOp(u, o) => format!(r#"{{"r":"un","op":{},"a":{}}}"#, q(&format!("{:?}", u)), self.op(env, o)),
            Rvalue::Discriminant(p) => format!(r#"{{"r":"discr","p":{}}}"#, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => format!(r#""k":"array","t":{}"#, self.ty(*t)),
                    AggregateKind::Tuple => r#""k":"tuple""#.into(),
                    AggregateKind::Adt(d, v, _, _, _) => format!(r#""k":"adt","p":{},"v":{}"#, q(&key(self.tcx, *d)), v.as_usize()),
                    AggregateKind::Closure(d, _) => format!(r#""k":"closure","p":{}"#, q(&key(self.tcx, *d))),
                    _ => r#""k":"other""#.into(),
                };
                if let AggregateKind::Adt(d, ..) = &**k {
                    let def = self.tcx.adt_def(*d);
                    self.adt(def);
                }
                let l = self.list(ops.iter(), |s, o| s.op(env, o));
                format!(r#"{{"r":"agg",{},"f":{}}}"#, kk, l)
            }
            Rvalue::CopyForDeref(p) => format!(r#"{{"r":"use","a":{{"o":"copy","p":{}}}}}"#, self.place(p)),
            other => format!(r#"{{"r":"other","d":{}}}"#, q(&format!("{:?}", other))),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        q(&format!("{}:{}", f, lo.line))
    }

    fn body(&mut self, id: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let d = id.to_def_id();
        let dk = tcx.def_kind(d);
        let body: &Body<'tcx> = match dk {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
            _ => return None,
        };
        let env = TypingEnv::post_analysis(tcx, d);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames: Vec<String> = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    upnames.push(format!(r#"[{},{}]"#, q(v.name.as_str()), self.place(&p)));
                }
            }
        }
        let decls: Vec<(usize, Ty<'tcx>)> = body.local_decls.iter_enumerated().map(|(i, l)| (i.as_usize(), l.ty)).collect();
        let locals = self.list(decls, |s, (i, t)| {
            let ti = s.ty(t);
            match names.get(&i) {
                Some(n) => format!(r#"{{"t":{},"n":{}}}"#, ti, q(n)),
                None => format!(r#"{{"t":{}}}"#, ti),
            }
        });
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut sts = Vec::new();
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let s = format!(r#"{{"s":"=","p":{},"r":{},"at":{}}}"#, self.place(&b.0), self.rvalue(env, &b.1), self.span(st.source_info.span));
                        sts.push(s);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(format!(r#"{{"s":"setd","p":{},"v":{}}}"#, self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => sts.push(format!(r#"{{"s":"intr","d":{}}}"#, q(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let at = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"{{"k":"goto","to":{}}}"#, target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(env, discr);
                    let tt = {
                        let ty = discr.ty(&body.local_decls, tcx);
                        self.ty(ty)
                    };
                    let vs: Vec<String> = targets.iter().map(|(v, b)| format!(r#"["{}",{}]"#, v, b.as_usize())).collect();
                    format!(r#"{{"k":"switch","a":{},"t":{},"v":[{}],"else":{},"at":{}}}"#, o, tt, vs.join(","), targets.otherwise().as_usize(), at)
                }
                TerminatorKind::Return => r#"{"k":"return"}"#.to_string(),
                TerminatorKind::Unreachable => r#"{"k":"unreachable"}"#.to_string(),
                TerminatorKind::UnwindResume => r#"{"k":"resume"}"#.to_string(),
                TerminatorKind::Drop { place, target, .. } => format!(r#"{{"k":"drop","p":{},"to":{},"at":{}}}"#, self.place(place), target.as_usize(), at),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(env, func);
                    let a = self.list(args.iter(), |s, o| s.op(env, &o.node));
                    let d = self.place(destination);
                    let tg = target.map(|b| b.as_usize().to_string()).unwrap_or("null".into());
                    format!(r#"{{"k":"call","f":{},"a":{},"d":{},"to":{},"at":{}}}"#, f, a, d, tg, at)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.op(env, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(b, ..) => format!("overflow:{:?}", b),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(..) => "div0".into(),
                        AssertKind::RemainderByZero(..) => "rem0".into(),
                        other => format!("{:?}", other).split('(').next().unwrap_or("").to_string(),
                    };
                    format!(r#"{{"k":"assert","a":{},"exp":{},"msg":{},"to":{},"at":{}}}"#, o, expected, q(&m), target.as_usize(), at)
                }
                other => format!(r#"{{"k":"other","d":{}}}"#, q(&format!("{:?}", other))),
            };
            blocks.push(format!(r#"{{"st":[{}],"t":{},"cl":{}}}"#, sts.join(","), tj, bb.is_cleanup));
        }
        // impl info
        let mut imp = String::new();
        if let Some(i) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            let sti = self.ty(st);
            let _ = write!(imp, ",\"self\":{}", sti);
            if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(imp, ",\"trait\":{}", q(&key(tcx, tr.def_id)));
                let a = self.args(tr.args);
                let _ = write!(imp, ",\"trargs\":{}", a);
            }
        }
        let unsafe_fn = match dk {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                !sig.skip_binder().safety().is_safe()
            }
            _ => false,
        };
        let vis = match dk {
            DefKind::Closure => "closure".to_string(),
            _ => if tcx.visibility(d).is_public() { "pub".into() } else { "restricted".into() },
        };
        let generics = tcx.generics_of(d);
        let mut gn: Vec<String> = Vec::new();
        let mut g = Some(generics);
        let mut stack = vec![];
        while let Some(x) = g {
            stack.push(x);
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        for x in stack.iter().rev() {
            for p in &x.own_params {
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    gn.push(q(p.name.as_str()));
                }
            }
        }
        Some(format!(
            r#"{{"key":{},"pp":{},"kind":{},"parent":{},"nargs":{},"locals":{},"up":[{}],"blocks":[{}],"at":{},"derived":{},"unsafe_fn":{},"vis":"{}","generics":[{}]{}}}"#,
            q(&key(tcx, d)), q(&tcx.def_path_str(d)), q(&format!("{:?}", dk)),
            q(&key(tcx, tcx.parent(d))),
            body.arg_count, locals, upnames.join(","), blocks.join(",\n "), self.span(tcx.def_span(d)),
            tcx.def_span(d).from_expansion(), unsafe_fn, vis, gn.join(","), imp
        ))
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<String>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            let sm = self.tcx.sess.source_map();
            let cs = b.span.source_callsite();
            let lo = sm.lookup_char_pos(cs.lo());
            let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
            self.out.push(format!(
                r#"{{"at":{},"user":{},"expansion":{},"owner":{}}}"#,
                q(&format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)),
                matches!(src, rustc_hir::UnsafeSource::UserProvided),
                b.span.from_expansion(),
                q(&key(self.tcx, owner.to_def_id()))
            ));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Dump;

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("MIRFACTS_OUT") else { return Compilation::Continue };
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], adts: BTreeMap::new() };
        let mut bodies = vec![];
        for id in tcx.hir_body_owners() {
            if let Some(b) = cx.body(id) {
                bodies.push(b);
            }
        }
        // statics + impls + unsafe blocks
        let mut statics = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::fully_monomorphized();
                    let freeze = t.is_freeze(tcx, env);
                    let ti = cx.ty(t);
                    statics.push(format!(r#"{{"key":{},"mut":{},"freeze":{},"t":{},"at":{}}}"#, q(&key(tcx, d)), mutability.is_mut(), freeze, ti, cx.span(tcx.def_span(d))));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let safety;
                    let tr = match tcx.impl_opt_trait_ref(d) {
                        Some(tr) => {
                            safety = !tcx.impl_trait_header(d).safety.is_safe();
                            q(&key(tcx, tr.instantiate_identity().skip_norm_wip().def_id))
                        }
                        None => {
                            safety = false;
                            "null".into()
                        }
                    };
                    impls.push(format!(r#"{{"self":{},"trait":{},"unsafe":{},"expansion":{},"at":{}}}"#, sti, tr, safety, tcx.def_span(d).from_expansion(), cx.span(tcx.def_span(d))));
                }
                DefKind::Struct | DefKind::Enum => {
                    let def = tcx.adt_def(d);
                    cx.adt(def);
                }
                _ => {}
            }
        }
        let mut uf = UnsafeFinder { tcx, out: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uf);
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
        let entry = match tcx.entry_fn(()) {
            Some((d, _)) => q(&key(tcx, d)),
            None => "null".into(),
        };
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        let out = format!(
            "{{\"crate\":{},\"kind\":\"{}\",\"entry\":{},\"types\":[{}],\n\"adts\":{{{}}},\n\"statics\":[{}],\"impls\":[{}],\"unsafe_blocks\":[{}],\n\"bodies\":[{}]}}\n",
            q(&krate), kind, entry, cx.ty_out.join(",\n"), adts.join(",\n"), statics.join(","), impls.join(",\n"), uf.out.join(","), bodies.join(",\n")
        );
        let path = format!("{}/{}-{}.json", dir, krate, kind);
        std::fs::write(&path, out).expect("cannot write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path
    let real = if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1) } else { "rustc".into() };
    let skip = std::env::var("MIRFACTS_OUT").is_err()
        || args.iter().any(|a| a == "build_script_build" || a == "-vV" || a.starts_with("--print"));
    if skip {
        let st = std::process::Command::new(real).args(&args[1..]).status().expect("cannot run rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump));
    std::process::exit(if r == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
