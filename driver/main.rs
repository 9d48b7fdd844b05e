//! MIR fact extractor: dumps, as one JSON document, the type-checked
//! intermediate representation of the crate being compiled.  It decides
//! nothing; the rules live in /verif/sa.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::definitions::DefPathData;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<String>,
    adtmap: HashMap<DefId, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        let parent = key.parent.map(|p| DefId { krate: d.krate, index: p });
        match key.disambiguated_data.data {
            DefPathData::CrateRoot => {
                if d.krate == LOCAL_CRATE { "crate".into() } else { tcx.crate_name(d.krate).to_string() }
            }
            DefPathData::Impl => {
                let st = tcx.type_of(d).instantiate_identity().skip_normalization();
                let sh = self.head(st);
                if tcx.def_kind(d) == (DefKind::Impl { of_trait: true }) {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_normalization();
                    let tp = self.path(tr.def_id);
                    let args: Vec<String> = tr.args.types().skip(1).map(|t| self.head(t)).collect();
                    if args.is_empty() {
                        format!("<{} as {}>", sh, tp)
                    } else {
                        format!("<{} as {}<{}>>", sh, tp, args.join(","))
                    }
                } else {
                    sh
                }
            }
            DefPathData::Ctor => self.path(parent.unwrap()),
            DefPathData::ForeignMod => self.path(parent.unwrap()),
            ref data => {
                let p = parent.map(|p| self.path(p)).unwrap_or_default();
                let n = match data {
                    DefPathData::Closure => format!("{{closure#{}}}", key.disambiguated_data.disambiguator),
                    _ => match data.get_opt_name() {
                        Some(n) => n.to_string(),
                        None => format!("{{{:?}#{}}}", data, key.disambiguated_data.disambiguator),
                    },
                };
                format!("{}::{}", p, n)
            }
        }
    }

    fn head(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.head(*t)),
            ty::RawPtr(t, _) => format!("*{}", self.head(*t)),
            ty::Slice(t) => format!("[{}]", self.head(*t)),
            ty::Array(t, _) => format!("[{};_]", self.head(*t)),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.head(t)).collect();
                format!("({})", v.join(","))
            }
            ty::Param(p) => p.name.to_string(),
            ty::Closure(d, _) => self.path(*d),
            ty::FnDef(d, _) => self.path(*d),
            ty::Str => "str".into(),
            ty::Dynamic(..) => "dyn".into(),
            _ => format!("{}", t),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let tcx = self.tcx;
        let s = match t.kind() {
            ty::Adt(a, args) => {
                let ad = self.adt(*a);
                let v: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let p = self.path(a.did());
                format!("{{\"k\":\"adt\",\"p\":{},\"adt\":{},\"a\":[{}]}}", esc(&p), ad, v.join(","))
            }
            ty::Ref(_, t, m) => {
                format!("{{\"k\":\"ref\",\"mut\":{},\"t\":{}}}", m.is_mut(), self.ty(*t))
            }
            ty::RawPtr(t, m) => {
                format!("{{\"k\":\"ptr\",\"mut\":{},\"t\":{}}}", m.is_mut(), self.ty(*t))
            }
            ty::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*t)),
            ty::Array(t, n) => {
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", self.ty(*t), esc(&format!("{}", n)))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":[{}]}}", v.join(","))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"p\":{}}}", esc(p.name.as_str())),
            ty::Closure(d, args) => {
                let p = self.path(*d);
                let ups = args.as_closure().tupled_upvars_ty();
                let u = self.ty(ups);
                let v: Vec<String> =
                    args.as_closure().parent_args().iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"closure\",\"p\":{},\"up\":{},\"a\":[{}]}}", esc(&p), u, v.join(","))
            }
            ty::FnDef(d, args) => {
                let p = self.path(*d);
                let v: Vec<String> =
                    args.skip_binder().types().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"fndef\",\"p\":{},\"a\":[{}]}}", esc(&p), v.join(","))
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", esc(&format!("{}", t))),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("{{\"k\":\"dyn\",\"p\":{}}}", esc(&p))
            }
            ty::Alias(_, al) => {
                let v: Vec<String> = al.args.types().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"alias\",\"s\":{},\"a\":[{}]}}", esc(&format!("{}", t)), v.join(","))
            }
            _ => format!("{{\"k\":\"prim\",\"p\":{}}}", esc(&format!("{}", t))),
        };
        let _ = tcx;
        let full = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let s = format!("{},\"s\":{}}}", &s[..s.len() - 1], esc(&full)).replace("\"k\":\"fnptr\",\"s\":", "\"k\":\"fnptr\",\"s0\":").replace("\"k\":\"alias\",\"s\":", "\"k\":\"alias\",\"s0\":");
        self.types[i] = s;
        i
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>) -> usize {
        let tcx = self.tcx;
        if let Some(i) = self.adtmap.get(&a.did()) {
            return *i;
        }
        let i = self.adts.len();
        self.adts.push(String::new());
        self.adtmap.insert(a.did(), i);
        let p = self.path(a.did());
        let mut vs = Vec::new();
        let local = a.did().is_local();
        for (vi, v) in a.variants().iter_enumerated() {
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                let t = if local { self.ty(fty).to_string() } else { "null".to_string() };
                fs.push(format!("{{\"n\":{},\"t\":{}}}", esc(f.name.as_str()), t));
            }
            let d = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".to_string() };
            vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}", esc(v.name.as_str()), d, fs.join(",")));
        }
        let gens: Vec<String> = tcx
            .generics_of(a.did())
            .own_params
            .iter()
            .filter(|g| matches!(g.kind, ty::GenericParamDefKind::Type { .. }))
            .map(|g| esc(g.name.as_str()))
            .collect();
        let kind = if a.is_enum() { "enum" } else if a.is_struct() { "struct" } else { "union" };
        let span = if local { self.loc(tcx.def_span(a.did())) } else { "null".into() };
        self.adts[i] = format!(
            "{{\"p\":{},\"kind\":\"{}\",\"local\":{},\"interior\":{},\"g\":[{}],\"loc\":{},\"v\":[{}]}}",
            esc(&p), kind, local, a.is_unsafe_cell(), gens.join(","), span, vs.join(",")
        );
        i
    }

    fn loc(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return "null".into();
        }
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        format!("[{},{},{}]", esc(&f), l.line, l.col.0 + 1)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = format!("[{}", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => out.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pt.variant_index {
                                Some(v) => a.variant(v),
                                None => a.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(out, ",{{\"f\":{}}}", esc(&n));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(out, ",{{\"i\":{}}}", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    let _ = write!(out, ",{{\"ci\":{},\"end\":{},\"min\":{}}}", offset, from_end, min_length);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, ",{{\"ss\":[{},{},{}]}}", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    let _ = write!(out, ",{{\"v\":{}}}", esc(&n));
                }
                _ => out.push_str(",{\"o\":1}"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        out.push(']');
        out
    }

    fn bytes_of(&self, alloc: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(alloc) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }

    fn hex(b: &[u8]) -> String {
        let mut s = String::new();
        for x in b {
            let _ = write!(s, "{:02x}", x);
        }
        s
    }

    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let v: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut s = format!("{{\"k\":\"fn\",\"p\":{},\"a\":[{}],\"local\":{}", esc(&p), v.join(","), d.is_local());
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && tcx.fn_sig(d).instantiate_identity().skip_normalization().safety().is_unsafe()
        {
            s.push_str(",\"u\":true");
        }
        let pgen = tcx.generics_of(d);
        let _ = pgen;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let tp = self.path(tr);
            let st = args.types().next().map(|t| self.ty(t)).unwrap_or(0);
            let n = tcx.item_name(d);
            let _ = write!(s, ",\"trait\":{},\"name\":{},\"self\":{}", esc(&tp), esc(n.as_str()), st);
            // resolution
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, eargs) {
                let (kind, rd) = match inst.def {
                    InstanceKind::Item(d) => ("item", Some(d)),
                    InstanceKind::Intrinsic(d) => ("intrinsic", Some(d)),
                    InstanceKind::Virtual(d, _) => ("virtual", Some(d)),
                    _ => ("shim", None),
                };
                let _ = write!(s, ",\"rk\":\"{}\"", kind);
                if let Some(rd) = rd {
                    let rp = self.path(rd);
                    let v: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
                    let _ = write!(s, ",\"r\":{},\"ra\":[{}],\"rlocal\":{}", esc(&rp), v.join(","), rd.is_local());
                }
            }
        }
        s.push('}');
        s
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let d: DefId = (*d).into();
            return self.fnref(env, d, args);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(pr) = u.promoted {
                    let p = self.path(u.def);
                    return format!("{{\"k\":\"promoted\",\"p\":{},\"i\":{},\"t\":{}}}", esc(&p), pr.as_usize(), ti);
                }
                if !u.def.is_local() {
                    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                        return self.cval(v, t, ti);
                    }
                }
                let p = self.path(u.def);
                let v: Vec<String> = u.args.types().map(|t| self.ty(t).to_string()).collect();
                let mut tr = String::new();
                if let Some(trd) = tcx.trait_of_assoc(u.def) {
                    let tp = self.path(trd);
                    let n = tcx.item_name(u.def);
                    let st = u.args.types().next().map(|t| self.ty(t)).unwrap_or(0);
                    tr = format!(",\"trait\":{},\"name\":{},\"self\":{}", esc(&tp), esc(n.as_str()), st);
                }
                // value as well, when it evaluates
                let ev = match c.const_.eval(tcx, env, c.span) {
                    Ok(v) => self.cval(v, t, ti),
                    Err(_) => "null".into(),
                };
                format!("{{\"k\":\"constdef\",\"p\":{},\"a\":[{}],\"t\":{},\"val\":{}{}}}", esc(&p), v.join(","), ti, ev, tr)
            }
            Const::Val(v, _) => self.cval(v, t, ti),
            Const::Ty(_, cc) => {
                if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                    return self.cval(v, t, ti);
                }
                format!("{{\"k\":\"opaque\",\"s\":{},\"t\":{}}}", esc(&format!("{}", cc)), ti)
            }
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, ti: usize) -> String {
        match v {
            ConstValue::ZeroSized => format!("{{\"k\":\"zst\",\"t\":{}}}", ti),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let val = if t.is_signed() {
                    let sz = i.size().bits();
                    let sh = 128 - sz;
                    (((bits << sh) as i128) >> sh).to_string()
                } else {
                    bits.to_string()
                };
                format!("{{\"k\":\"int\",\"v\":\"{}\",\"t\":{}}}", val, ti)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match self.tcx.global_alloc(id) {
                    GlobalAlloc::Memory(m) => {
                        let len = m.inner().len() - off.bytes_usize();
                        let b = self.bytes_of(id, off.bytes_usize(), len).unwrap_or_default();
                        format!("{{\"k\":\"bytes\",\"hex\":\"{}\",\"t\":{}}}", Self::hex(&b), ti)
                    }
                    GlobalAlloc::Static(d) => {
                        let p = self.path(d);
                        format!("{{\"k\":\"static\",\"p\":{},\"t\":{}}}", esc(&p), ti)
                    }
                    _ => format!("{{\"k\":\"opaque\",\"s\":\"ptr\",\"t\":{}}}", ti),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let b = self.bytes_of(alloc_id, 0, meta as usize).unwrap_or_default();
                match std::str::from_utf8(&b) {
                    Ok(s) if matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) => {
                        format!("{{\"k\":\"str\",\"v\":{},\"t\":{}}}", esc(s), ti)
                    }
                    _ => format!("{{\"k\":\"bytes\",\"hex\":\"{}\",\"t\":{}}}", Self::hex(&b), ti),
                }
            }
            ConstValue::Indirect { .. } => format!("{{\"k\":\"opaque\",\"s\":\"indirect\",\"t\":{}}}", ti),
        }
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(env, c)),
            _ => "{\"k\":{\"k\":\"opaque\",\"s\":\"rtcheck\"}}".into(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(env, body, o)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(env, body, o), esc(&format!("{}", n)))
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(env, body, o), t)
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(env, body, &b.0), self.operand(env, body, &b.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(env, body, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(body, p), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = self.tcx.adt_def(*d);
                        let ai = self.adt(a);
                        let p = self.path(*d);
                        format!(
                            "{{\"k\":\"adt\",\"p\":{},\"adt\":{},\"v\":{},\"enum\":{}}}",
                            esc(&p), ai, esc(a.variant(*vi).name.as_str()), a.is_enum()
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let p = self.path(*d);
                        let v: Vec<String> = args.as_closure().parent_args().iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                        format!("{{\"k\":\"closure\",\"p\":{},\"a\":[{}]}}", esc(&p), v.join(","))
                    }
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},[{}]]", k, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            other => format!("[\"opaque\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, def: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut locals = Vec::new();
        for d in body.local_decls.iter() {
            locals.push(self.ty(d.ty).to_string());
        }
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, &p)));
            }
        }
        let mut blocks = Vec::new();
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let pl = self.place(body, &x.0);
                        let rv = self.rvalue(env, body, &x.1);
                        let ln = self.loc(s.source_info.span);
                        st.push(format!("[{},{},{}]", pl, rv, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(body, place);
                        st.push(format!("[{},[\"setdiscr\",{}],null]", pl, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(format!("[[{}],[\"dead\"],null]", l.as_u32()));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let ln = self.loc(t.source_info.span);
            let exp = t.source_info.span.from_expansion();
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(env, body, discr);
                    let dt = discr.ty(body, tcx);
                    let dti = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                    format!("{{\"k\":\"switch\",\"d\":{},\"dt\":{},\"ts\":[{}],\"o\":{}}}", d, dti, v.join(","), targets.otherwise().as_u32())
                }
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"resume\"}".into(),
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body, tcx).ty;
                    let t = self.ty(t);
                    format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}}}", self.place(body, place), t, target.as_u32())
                }
                TerminatorKind::Call { func, args, destination, target, call_source, .. } => {
                    let f = self.operand(env, body, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(env, body, &a.node)).collect();
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(body, tcx); self.ty(t).to_string() }).collect();
                    let d = self.place(body, destination);
                    let dt = destination.ty(body, tcx).ty;
                    let dt = self.ty(dt);
                    let tg = target.map(|t| t.as_u32().to_string()).unwrap_or("null".into());
                    let src = format!("{:?}", call_source);
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"a\":[{}],\"at\":[{}],\"d\":{},\"dt\":{},\"t\":{},\"src\":{}}}",
                        f, a.join(","), at.join(","), d, dt, tg, esc(&src)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(env, body, cond);
                    let (mk, mo) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".to_string(), format!("[{},{}]", self.operand(env, body, len), self.operand(env, body, index)))
                        }
                        AssertKind::Overflow(op, a, b) => {
                            (format!("overflow:{:?}", op), format!("[{},{}]", self.operand(env, body, a), self.operand(env, body, b)))
                        }
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".to_string(), format!("[{}]", self.operand(env, body, a))),
                        AssertKind::DivisionByZero(a) => ("divzero".to_string(), format!("[{}]", self.operand(env, body, a))),
                        AssertKind::RemainderByZero(a) => ("remzero".to_string(), format!("[{}]", self.operand(env, body, a))),
                        _ => ("other".to_string(), "[]".to_string()),
                    };
                    format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"ops\":{},\"t\":{}}}", c, expected, esc(&mk), mo, target.as_u32())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_u32()),
                other => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"cl\":{},\"s\":[{}],\"t\":{},\"l\":{},\"x\":{}}}", b.is_cleanup, st.join(","), ts, ln, exp));
        }
        format!(
            "\"argc\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}]",
            body.arg_count, locals.join(","), names.join(","), blocks.join(",")
        )
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let eff = tcx.effective_visibilities(());
        let mut fns = Vec::new();
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| tcx.def_path_str(d.to_def_id()));
        for ld in keys {
            let def = ld.to_def_id();
            let kind = tcx.def_kind(def);
            let (body, prom) = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    (tcx.optimized_mir(def), Some(tcx.promoted_mir(def)))
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    (tcx.mir_for_ctfe(def), Some(tcx.promoted_mir(def)))
                }
                _ => continue,
            };
            let p = self.path(def);
            let mut s = format!("{{\"p\":{},\"kind\":{}", esc(&p), esc(&format!("{:?}", kind)));
            let root = tcx.typeck_root_def_id(def);
            if root != def {
                let rp = self.path(root);
                let _ = write!(s, ",\"root\":{}", esc(&rp));
            }
            let mut pubreach = eff.is_reachable(ld);
            let mut derived = false;
            if let Some(im) = tcx.impl_of_assoc(root) {
                let st = tcx.type_of(im).instantiate_identity().skip_normalization();
                let sti = self.ty(st);
                let _ = write!(s, ",\"impl_self\":{}", sti);
                derived = tcx.is_automatically_derived(im);
                if tcx.def_kind(im) == (DefKind::Impl { of_trait: true }) {
                    let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_normalization();
                    let tp = self.path(tr.def_id);
                    let ta: Vec<String> = tr.args.types().skip(1).map(|t| self.ty(t).to_string()).collect();
                    let _ = write!(s, ",\"impl_trait\":{},\"impl_trait_args\":[{}]", esc(&tp), ta.join(","));
                    // a trait impl is public when its self type is
                    if let ty::Adt(a, _) = st.kind() {
                        pubreach = a.did().as_local().map(|l| eff.is_reachable(l)).unwrap_or(true);
                    }
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(root) {
                let tp = self.path(tr);
                let _ = write!(s, ",\"in_trait\":{}", esc(&tp));
            }
            let exported = eff.is_exported(ld);
            let gens = tcx.generics_of(root);
            let mut gp = Vec::new();
            let mut g = Some(gens);
            let mut chain = Vec::new();
            while let Some(x) = g {
                chain.push(x);
                g = x.parent.map(|p| tcx.generics_of(p));
            }
            for x in chain.into_iter().rev() {
                for q in &x.own_params {
                    if matches!(q.kind, ty::GenericParamDefKind::Type { .. }) {
                        gp.push(esc(q.name.as_str()));
                    }
                }
            }
            let unsafe_ = matches!(kind, DefKind::Fn | DefKind::AssocFn)
                && tcx.fn_sig(def).instantiate_identity().skip_normalization().safety().is_unsafe();
            let dep = tcx.lookup_deprecation(root).is_some();
            let ms = tcx.def_span(def).from_expansion();
            let _ = write!(
                s,
                ",\"pub\":{},\"exported\":{},\"derived\":{},\"deprecated\":{},\"expanded\":{},\"unsafe\":{},\"g\":[{}],\"loc\":{},",
                pubreach, exported, derived, dep, ms, unsafe_, gp.join(","), self.loc(tcx.def_span(def))
            );
            s.push_str(&self.body(def, body));
            if let Some(pr) = prom {
                let v: Vec<String> = pr.iter().map(|b| format!("{{{}}}", self.body(def, b))).collect();
                let _ = write!(s, ",\"promoted\":[{}]", v.join(","));
            }
            s.push('}');
            fns.push(s);
        }
        // impls
        let mut impls = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
                continue;
            }
            let st = tcx.type_of(d).instantiate_identity().skip_normalization();
            let st = self.ty(st);
            let tr = if tcx.def_kind(d) == (DefKind::Impl { of_trait: true }) {
                let t = tcx.impl_trait_ref(d).instantiate_identity().skip_normalization();
                esc(&self.path(t.def_id))
            } else {
                "null".into()
            };
            let items: Vec<String> = tcx
                .associated_items(d)
                .in_definition_order()
                .map(|i| {
                    let p = self.path(i.def_id);
                    let t = if matches!(i.kind, ty::AssocKind::Type { .. }) {
                        let t = tcx.type_of(i.def_id).instantiate_identity().skip_normalization();
                        self.ty(t).to_string()
                    } else {
                        "null".into()
                    };
                    format!("[{},{}]", esc(&p), t)
                })
                .collect();
            impls.push(format!(
                "{{\"self\":{},\"trait\":{},\"derived\":{},\"items\":[{}]}}",
                st, tr, tcx.is_automatically_derived(d), items.join(",")
            ));
        }
        // local ADTs and statics, even those no body mentions
        let mut statics = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    self.adt(a);
                    let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                    self.ty(t);
                }
                DefKind::Static { mutability, .. } => {
                    let p = self.path(d);
                    let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                    let t = self.ty(t);
                    statics.push(format!("{{\"p\":{},\"t\":{},\"mut\":{},\"loc\":{}}}", esc(&p), t, mutability.is_mut(), self.loc(tcx.def_span(d))));
                }
                _ => {}
            }
        }
        // auto-trait facts for the exported types
        let mut out = String::new();
        let _ = write!(out, "{{\"crate\":{},", esc(tcx.crate_name(LOCAL_CRATE).as_str()));
        let _ = write!(out, "\"fns\":[\n{}\n],", fns.join(",\n"));
        let _ = write!(out, "\"impls\":[{}],", impls.join(",\n"));
        let _ = write!(out, "\"statics\":[{}],", statics.join(",\n"));
        let _ = write!(out, "\"adts\":[\n{}\n],", self.adts.join(",\n"));
        let _ = write!(out, "\"types\":[\n{}\n]}}", self.types.join(",\n"));
        out
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("SA_CRATE").unwrap_or_default();
        let out = std::env::var("SA_OUT").unwrap_or_default();
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if !out.is_empty() && want == name {
            let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: vec![], adtmap: HashMap::new() };
            let s = rustc_middle::ty::print::with_no_trimmed_paths!(cx.run());
            std::fs::write(&out, s).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo's wrapper protocol: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if args.iter().any(|a| a == "--crate-name") {
        args.push("-Zmir-opt-level=0".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
