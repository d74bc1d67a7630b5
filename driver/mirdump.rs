// MIR extractor: a rustc_private driver used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
// For every body owner of the crate being compiled it writes the *promoted* MIR (before drop
// elaboration) with resolved callees, constants, types and spans as one JSON file.
#![feature(rustc_private)]
#![allow(unused_imports, clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_index;
extern crate rustc_data_structures;
extern crate rustc_type_ir;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (c as u32) > 0xffff || (0x2028..=0x2029).contains(&(c as u32)) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<(DefId, ())>,
    adtseen: HashMap<DefId, ()>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_forced_impl_filename_line!(self.tcx.def_path_str(d)))
    }
    fn dpath(&self, d: DefId) -> String {
        let t = self.tcx;
        rustc_middle::ty::print::with_no_trimmed_paths!({
            // impl-stable path
            if let Some(imp) = t.impl_of_assoc(d) {
                let st = t.type_of(imp).instantiate_identity().skip_norm_wip();
                if let Some(tr) = t.impl_opt_trait_ref(imp) {
                    return format!("<{} as {}>::{}", st, tr.instantiate_identity().skip_norm_wip().print_only_trait_path(), t.item_name(d));
                }
            }
            t.def_path_str(d)
        })
    }
    fn ty(&mut self, ty: Ty<'tcx>) -> usize {
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        if let Some(i) = self.tymap.get(&ty) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(ty, i);
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", ty));
        let mut o = format!("{{\"s\":{}", esc(&s));
        use rustc_type_ir::TyKind::*;
        match ty.kind() {
            Bool => o.push_str(",\"k\":\"bool\""),
            Char => o.push_str(",\"k\":\"char\""),
            Int(t) => { let _ = write!(o, ",\"k\":\"int\",\"n\":\"{}\"", t.name_str()); }
            Uint(t) => { let _ = write!(o, ",\"k\":\"uint\",\"n\":\"{}\"", t.name_str()); }
            Float(_) => o.push_str(",\"k\":\"float\""),
            Str => o.push_str(",\"k\":\"str\""),
            Never => o.push_str(",\"k\":\"never\""),
            Adt(def, args) => {
                let did = def.did();
                if !self.adtseen.contains_key(&did) {
                    self.adtseen.insert(did, ());
                    self.adts.push((did, ()));
                }
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"adt\",\"p\":{},\"a\":[{}]", esc(&self.dpath(did)), a.join(","));
            }
            Ref(_, t, m) => { let t = self.ty(*t); let _ = write!(o, ",\"k\":\"ref\",\"t\":{},\"mut\":{}", t, m.is_mut()); }
            RawPtr(t, m) => { let t = self.ty(*t); let _ = write!(o, ",\"k\":\"ptr\",\"t\":{},\"mut\":{}", t, m.is_mut()); }
            Array(t, n) => { let t = self.ty(*t); let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1); let _ = write!(o, ",\"k\":\"array\",\"t\":{},\"n\":{}", t, n); }
            Slice(t) => { let t = self.ty(*t); let _ = write!(o, ",\"k\":\"slice\",\"t\":{}", t); }
            Tuple(ts) => { let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect(); let _ = write!(o, ",\"k\":\"tuple\",\"a\":[{}]", a.join(",")); }
            FnDef(d, args) => {
                let r = self.callee(*d, args.no_bound_vars().unwrap());
                let _ = write!(o, ",\"k\":\"fndef\",\"f\":{}", r);
            }
            FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            Closure(d, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"p\":{},\"a\":[{}]", esc(&self.dpath(*d)), up.join(","));
            }
            Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            Param(p) => { let _ = write!(o, ",\"k\":\"param\",\"n\":{}", esc(p.name.as_str())); }
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        self.types[i] = o;
        i
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let generic = self.dpath(d);
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut res = String::from("null");
        let mut local = d.is_local();
        let mut kind = String::new();
        let te = ty::TypingEnv::fully_monomorphized();
        if !args.has_param() && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, d, eargs) {
                let rd = inst.def_id();
                res = esc(&self.dpath(rd));
                local = rd.is_local();
                kind = format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string();
            }
        }
        let tr = match tcx.trait_of_assoc(d) { Some(t) => esc(&self.dpath(t)), None => "null".into() };
        let sym = match tcx.def_kind(d) { DefKind::Ctor(..) => "ctor", _ => "fn" };
        let mut extra = String::new();
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let par = tcx.parent(d);
            match of {
                rustc_hir::def::CtorOf::Variant => {
                    let adt = tcx.parent(par);
                    let def = tcx.adt_def(adt);
                    let vi = def.variant_index_with_ctor_id(d);
                    if !self.adtseen.contains_key(&adt) { self.adtseen.insert(adt, ()); self.adts.push((adt, ())); }
                    let _ = write!(extra, ",\"adt\":{},\"v\":{}", esc(&self.dpath(adt)), vi.as_u32());
                }
                rustc_hir::def::CtorOf::Struct => {
                    if !self.adtseen.contains_key(&par) { self.adtseen.insert(par, ()); self.adts.push((par, ())); }
                    let _ = write!(extra, ",\"adt\":{},\"v\":0", esc(&self.dpath(par)));
                }
            }
        }
        format!("{{\"p\":{},\"name\":{},\"targs\":[{}],\"r\":{},\"local\":{},\"trait\":{},\"ik\":{},\"sym\":\"{}\"{}}}",
            esc(&generic), esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()), targs.join(","), res, local, tr, esc(&kind), sym, extra)
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = match &lo.file.name { rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(), o => format!("{:?}", o) };
        format!("{}:{}:{}", f, lo.line, lo.col.0 + 1)
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_u32());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",[\"*\"]"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); let _ = write!(o, ",[\"f\",{},{}]", f.as_u32(), t); }
                ProjectionElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l.as_u32()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(o, ",[\"d\",{}]", v.as_u32()); }
                _ => o.push_str(",[\"?\"]"),
            }
        }
        o.push(']');
        o
    }
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }
    fn constant(&mut self, c: &Const<'tcx>, owner: LocalDefId) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"promoted\",\"t\":{},\"of\":{},\"i\":{}}}", ti, esc(&self.dpath(u.def)), p.as_u32());
            }
        }
        let te = ty::TypingEnv::post_analysis(tcx, owner);
        let mut named = String::new();
        if let Const::Unevaluated(u, _) = c {
            named = format!(",\"const\":{}", esc(&self.dpath(u.def)));
        }
        if let ty::FnDef(d, args) = t.kind() {
            let r = self.callee(*d, args.no_bound_vars().unwrap());
            return format!("{{\"k\":\"fn\",\"t\":{},\"f\":{}}}", ti, r);
        }
        let v = match c.eval(tcx, te, rustc_span::DUMMY_SP) {
            Ok(v) => v,
            Err(_) => return format!("{{\"k\":\"?\",\"t\":{}{}}}", ti, named),
        };
        match v {
            ConstValue::ZeroSized => format!("{{\"k\":\"zst\",\"t\":{}{}}}", ti, named),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Int(_) => { let v = i.to_int(i.size()); format!("{{\"k\":\"int\",\"t\":{},\"v\":{}{}}}", ti, v, named) }
                    ty::Float(_) => { format!("{{\"k\":\"float\",\"t\":{},\"v\":{}{}}}", ti, bits, named) }
                    _ => format!("{{\"k\":\"int\",\"t\":{},\"v\":{}{}}}", ti, bits, named),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                            return format!("{{\"k\":\"str\",\"t\":{},\"v\":{}{}}}", ti, esc(&String::from_utf8_lossy(&b)), named);
                        }
                    }
                    if let ty::Slice(el) = inner.kind() {
                        if *el == tcx.types.u8 {
                            if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                return format!("{{\"k\":\"bytes\",\"t\":{},\"v\":[{}]{}}}", ti, v.join(","), named);
                            }
                        }
                    }
                }
                format!("{{\"k\":\"?\",\"t\":{}{}}}", ti, named)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(el, n) = inner.kind() {
                        if *el == tcx.types.u8 {
                            if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes(), n.try_to_target_usize(tcx).unwrap_or(0)) {
                                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                return format!("{{\"k\":\"bytes\",\"t\":{},\"v\":[{}]{}}}", ti, v.join(","), named);
                            }
                        }
                    }
                }
                if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                    return format!("{{\"k\":\"static\",\"t\":{},\"p\":{}}}", ti, esc(&self.dpath(d)));
                }
                // try to destructure through valtree-ish printing
                let d = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", Const::Val(v, t)));
                format!("{{\"k\":\"?\",\"t\":{},\"d\":{}{}}}", ti, esc(&d), named)
            }
            _ => {
                // destructure ADT constants when possible
                if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) { return format!("{{\"k\":\"?\",\"t\":{}{}}}", ti, named); }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<(ConstValue, Ty<'tcx>)> = dc.fields.iter().copied().collect();
                    let fs: Vec<String> = fs.into_iter().map(|(v, t)| self.constant(&Const::Val(v, t), owner)).collect();
                    let vi = dc.variant.map(|v| v.as_u32() as i64).unwrap_or(0);
                    return format!("{{\"k\":\"agg\",\"t\":{},\"v\":{},\"fields\":[{}]{}}}", ti, vi, fs.join(","), named);
                }
                let d = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", Const::Val(v, t)));
                format!("{{\"k\":\"?\",\"t\":{},\"d\":{}{}}}", ti, esc(&d), named)
            }
        }
    }
    fn operand(&mut self, op: &Operand<'tcx>, owner: LocalDefId) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_, owner)),
            _ => "[\"rc\"]".into(),
        }
    }
    fn rvalue(&mut self, rv: &Rvalue<'tcx>, owner: LocalDefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, owner)),
            Rvalue::Repeat(o, n) => { let n = n.try_to_target_usize(tcx).map(|v| v as i64).unwrap_or(-1); format!("[\"repeat\",{},{}]", self.operand(o, owner), n) }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},\"{}\"]", self.place(p), match bk { BorrowKind::Shared => "s", BorrowKind::Fake(_) => "fake", BorrowKind::Mut { .. } => "m", _ => "s" }),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => { let from = o.ty(&body.local_decls, tcx); let ft = self.ty(from); let ti = self.ty(*t); let ks = format!("{:?}", k); format!("[\"cast\",{},{},{},{}]", esc(&ks), self.operand(o, owner), ti, ft) }
            Rvalue::BinaryOp(op, ab) => { let t = ab.0.ty(&body.local_decls, tcx); let ti = self.ty(t); format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(&ab.0, owner), self.operand(&ab.1, owner), ti) }
            Rvalue::UnaryOp(op, a) => { let t = a.ty(&body.local_decls, tcx); let ti = self.ty(t); format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a, owner), ti) }
            Rvalue::Discriminant(p) => { let t = p.ty(&body.local_decls, tcx).ty; let ti = self.ty(t); format!("[\"discr\",{},{}]", self.place(p), ti) }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, owner)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let t = tcx.type_of(*d).instantiate(tcx, args).skip_norm_wip();
                        let ti = self.ty(t);
                        format!("[\"adt\",{},{},{},{}]", esc(&self.dpath(*d)), v.as_u32(), ti, af.map(|f| f.as_u32() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.dpath(*d))),
                    _ => "[\"?\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, owner: LocalDefId) -> String {
        let mut o = String::new();
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = body.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty);
            format!("[{},{}]", t, names.get(&l.as_u32()).map(|s| esc(s)).unwrap_or("null".into()))
        }).collect();
        let _ = write!(o, "{{\"args\":{},\"span\":{},\"locals\":[{}],\"blocks\":[", body.arg_count, esc(&self.span(body.span)), locals.join(","));
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 { o.push(','); }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(b) => { let (p, rv) = &**b; let pl = self.place(p); let r = self.rvalue(rv, owner, body); Some(format!("[\"=\",{},{}", pl, r)) }
                    StatementKind::SetDiscriminant { place, variant_index } => Some(format!("[\"setd\",{},{}", self.place(place), variant_index.as_u32())),
                    StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}", l.as_u32())),
                    StatementKind::StorageLive(l) => Some(format!("[\"live\",{}", l.as_u32())),
                    _ => None,
                };
                if let Some(s) = s {
                    if !first { o.push(','); }
                    first = false;
                    let _ = write!(o, "{},{}]", s, esc(&self.span(st.source_info.span)));
                }
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let macro_bt: Vec<String> = t.source_info.span.macro_backtrace().map(|e| match e.kind { rustc_span::ExpnKind::Macro(_, n) => esc(n.as_str()), k => esc(&format!("{:?}", k)) }).collect();
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, self.tcx);
                    let ti = self.ty(ty);
                    let signed = matches!(ty.kind(), ty::Int(_));
                    let size = if signed { Some(match ty.kind() { ty::Int(t) => t.bit_width().unwrap_or(64) as u32, _ => 64 }) } else { None };
                    let ts: Vec<String> = targets.iter().map(|(v, b)| {
                        let vs = match size { Some(bits) => { let sh = 128 - bits; (((v << sh) as i128) >> sh).to_string() } None => v.to_string() };
                        format!("[{},{}]", vs, b.as_u32())
                    }).collect();
                    format!("[\"switch\",{},{},[{}],{}]", self.operand(discr, owner), ti, ts.join(","), targets.otherwise().as_u32())
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"terminate\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, replace, .. } => { let ty = place.ty(&body.local_decls, self.tcx).ty; let ti = self.ty(ty); format!("[\"drop\",{},{},{},{}]", self.place(place), target.as_u32(), replace, ti) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, owner);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, owner)).collect();
                    format!("[\"call\",{},[{}],{},{}]", f, a.join(","), self.place(destination), target.map(|b| b.as_u32() as i64).unwrap_or(-1))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.operand(len, owner), self.operand(index, owner)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow-{:?}", op), vec![self.operand(a, owner), self.operand(b, owner)]),
                        AssertKind::OverflowNeg(a) => ("overflow-neg".to_string(), vec![self.operand(a, owner)]),
                        AssertKind::DivisionByZero(a) => ("div0".to_string(), vec![self.operand(a, owner)]),
                        AssertKind::RemainderByZero(a) => ("rem0".to_string(), vec![self.operand(a, owner)]),
                        o => (format!("{:?}", o), vec![]),
                    };
                    format!("[\"assert\",{},{},{},[{}],{}]", self.operand(cond, owner), expected, esc(&k), ops.join(","), target.as_u32())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
            };
            let _ = write!(o, "{},\"sp\":{},\"mb\":[{}],\"cl\":{}}}", ts, sp, macro_bt.join(","), bb.is_cleanup);
        }
        o.push_str("]}");
        o
    }
}

struct Cb { out: Option<String> }

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(dir) = self.out.clone() else { return Compilation::Continue };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut d = Dump { tcx, types: vec![], tymap: HashMap::new(), adts: vec![], adtseen: HashMap::new() };
        // clone everything first: later constant evaluation may steal promoted MIR
        let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = vec![];
        for def in tcx.mir_keys(()).iter().copied() {
            let k = tcx.def_kind(def);
            if matches!(k, DefKind::Ctor(..)) { continue; }
            let (b, p) = tcx.mir_promoted(def);
            if b.is_stolen() || p.is_stolen() { eprintln!("mirdump: stolen {:?}", def); continue; }
            let bc = b.borrow().clone();
            let pc = p.borrow().iter().cloned().collect();
            bodies.push((def, bc, pc));
        }
        let mut fs: Vec<String> = vec![];
        for (def, b, ps) in &bodies {
            let kind = format!("{:?}", tcx.def_kind(*def));
            let p = d.dpath(def.to_def_id());
            let vis = if matches!(tcx.def_kind(*def), DefKind::Fn | DefKind::AssocFn) { tcx.visibility(def.to_def_id()).is_public() } else { false };
            let parent = tcx.opt_parent(def.to_def_id()).map(|x| d.dpath(x)).unwrap_or_default();
            let body = d.body(b, *def);
            let prs: Vec<String> = ps.iter().map(|x| d.body(x, *def)).collect();
            let derived = tcx.impl_of_assoc(def.to_def_id()).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
            fs.push(format!("{}:{{\"kind\":{},\"pub\":{},\"derived\":{},\"parent\":{},\"body\":{},\"promoted\":[{}]}}", esc(&p), esc(&kind), vis, derived, esc(&parent), body, prs.join(",")));
        }
        // local ADTs even if unused
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                let did = id.to_def_id();
                if !d.adtseen.contains_key(&did) { d.adtseen.insert(did, ()); d.adts.push((did, ())); }
            }
        }
        let mut ads: Vec<String> = vec![];
        let mut i = 0;
        while i < d.adts.len() {
            let did = d.adts[i].0;
            i += 1;
            let def = tcx.adt_def(did);
            let mut vs: Vec<String> = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let dis = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                let flds: Vec<String> = v.fields.iter().map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = if did.is_local() || def.is_enum() { d.ty(t) as i64 } else { -1 };
                    format!("[{},{}]", esc(f.name.as_str()), ti)
                }).collect();
                vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), dis, flds.join(",")));
            }
            ads.push(format!("{}:{{\"enum\":{},\"local\":{},\"v\":[{}]}}", esc(&d.dpath(did)), def.is_enum(), did.is_local(), vs.join(",")));
        }
        let out = format!("{{\"crate\":{},\"types\":[\n{}\n],\"adts\":{{\n{}\n}},\"fns\":{{\n{}\n}}}}\n", esc(&name), d.types.join(",\n"), ads.join(",\n"), fs.join(",\n"));
        let f = format!("{}/{}.json", dir, name);
        let tmp = format!("{}.tmp", f);
        std::fs::write(&tmp, out).expect("write mir dump");
        std::fs::rename(&tmp, &f).expect("rename mir dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let is_target = args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a == "--test");
    let skip = args.iter().any(|a| a == "build_script_build");
    let mut cb = Cb { out: if is_target && !skip { out } else { None } };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
