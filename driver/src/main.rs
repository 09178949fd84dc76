//! mirserve: a rustc driver that, after type checking a crate, serves its resolved, monomorphised
//! program (MIR bodies, types, constants, resolved callees) as JSON over stdin/stdout.
//! It never runs any code of the analysed crates.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, GenericArg, GenericArgKind, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::{Span, DUMMY_SP};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<Ty<'tcx>>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    insts: Vec<Instance<'tcx>>,
    inst_ix: HashMap<Instance<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.ty_ix.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.tys.push(t);
        self.ty_ix.insert(t, i);
        i
    }
    fn inst(&mut self, t: Instance<'tcx>) -> usize {
        if let Some(&i) = self.inst_ix.get(&t) {
            return i;
        }
        let i = self.insts.len();
        self.insts.push(t);
        self.inst_ix.insert(t, i);
        i
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(t))
    }
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        let mut s = self.tcx.crate_name(d.krate).to_string();
        s.push_str(&p.to_string_no_crate_verbose());
        s
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let name = loc.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", name, loc.line)
    }
    fn resolve(&self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let args = self.tcx.erase_and_anonymize_regions(args);
        Instance::try_resolve(self.tcx, self.env(), did, args).ok().flatten()
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                GenericArgKind::Const(c) => Some(esc(&format!("{}", c))),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.path(d.did()),
            ty::Slice(_) => "[T]".into(),
            ty::Array(..) => "[T;N]".into(),
            ty::Str => "str".into(),
            ty::Ref(..) => "&".into(),
            ty::RawPtr(..) => "*".into(),
            ty::Tuple(_) => "()".into(),
            ty::Closure(..) => "closure".into(),
            ty::FnDef(..) => "fndef".into(),
            ty::FnPtr(..) => "fnptr".into(),
            ty::Dynamic(..) => "dyn".into(),
            _ => format!("{}", t),
        }
    }
    fn describe_fn(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let kind = tcx.def_kind(did);
        let mut o = String::new();
        let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let _ = write!(o, "\"name\":{},\"dpath\":{},\"krate\":{}", esc(&name), esc(&self.path(did)), esc(tcx.crate_name(did.krate).as_str()));
        let _ = write!(o, ",\"loc\":{}", esc(&self.span(tcx.def_span(did))));
        let _ = write!(o, ",\"gargs\":{}", self.gargs(args));
        let assoc = tcx.opt_associated_item(did);
        let parent = tcx.opt_parent(did);
        if let (Some(_), Some(p)) = (assoc, parent) {
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let n = tcx.generics_of(p).count();
                    let pargs = tcx.mk_args(&args[..n]);
                    let st = tcx.type_of(p).instantiate(tcx, pargs);
                    let st = tcx.normalize_erasing_regions(self.env(), st);
                    let head = self.ty_head(st);
                    let sid = self.ty(st);
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate(tcx, pargs);
                        let tr = tcx.normalize_erasing_regions(self.env(), tr);
                        let tpath = self.path(tr.def_id);
                        let targs = self.gargs(tr.args);
                        let _ = write!(o, ",\"k\":\"timpl\",\"path\":{},\"self\":{},\"head\":{},\"targs\":{}", esc(&format!("{}::{}", tpath, name)), sid, esc(&head), targs);
                    } else {
                        let _ = write!(o, ",\"k\":\"inherent\",\"path\":{},\"self\":{},\"head\":{}", esc(&format!("{}::{}", head, name)), sid, esc(&head));
                    }
                }
                DefKind::Trait => {
                    let st = args.type_at(0);
                    let head = self.ty_head(st);
                    let sid = self.ty(st);
                    let tpath = self.path(p);
                    let _ = write!(o, ",\"k\":\"tdef\",\"path\":{},\"self\":{},\"head\":{}", esc(&format!("{}::{}", tpath, name)), sid, esc(&head));
                }
                _ => {
                    let _ = write!(o, ",\"k\":\"free\",\"path\":{}", esc(&self.path(did)));
                }
            }
        } else if kind == DefKind::Closure {
            let _ = write!(o, ",\"k\":\"closure\",\"path\":{}", esc(&self.path(did)));
        } else {
            let _ = write!(o, ",\"k\":\"free\",\"path\":{}", esc(&self.path(did)));
        }
        o
    }
    fn has_body(&self, i: Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(d) => {
                let k = self.tcx.def_kind(d);
                matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) && !self.tcx.is_foreign_item(d) && self.tcx.is_mir_available(d)
            }
            InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => false,
            InstanceKind::Shim(_) => true,
            _ => false,
        }
    }
    fn inst_json(&mut self, id: usize) -> String {
        let i = self.insts[id];
        let did = i.def_id();
        let ik = match i.def {
            InstanceKind::Item(d) => {
                if self.tcx.intrinsic(d).is_some() { "intrinsic".to_string() } else if self.tcx.is_foreign_item(d) { "foreign".into() } else { "item".into() }
            }
            InstanceKind::Intrinsic(_) => "intrinsic".into(),
            InstanceKind::LlvmIntrinsic(_) => "intrinsic".into(),
            InstanceKind::Virtual(..) => "virtual".into(),
            InstanceKind::Shim(s) => match s {
                ty::ShimKind::VTable(_) => "shim:vtable".into(),
                ty::ShimKind::Reify(..) => "shim:reify".into(),
                ty::ShimKind::FnPtr(..) => "shim:fnptr".into(),
                ty::ShimKind::ClosureOnce { .. } => "shim:closureonce".into(),
                ty::ShimKind::DropGlue(..) => "shim:drop".into(),
                ty::ShimKind::Clone(..) => "shim:clone".into(),
                _ => "shim:other".to_string(),
            },
        };
        let d = self.describe_fn(did, i.args);
        let shim_ty = match i.def {
            InstanceKind::Shim(ty::ShimKind::Clone(_, t)) => { let x = self.ty(t); format!(",\"shimty\":{}", x) }
            InstanceKind::Shim(ty::ShimKind::FnPtr(_, t)) => { let x = self.ty(t); format!(",\"shimty\":{}", x) }
            _ => String::new(),
        };
        let hb = self.has_body(i);
        let local = did.is_local();
        format!("{{\"id\":{},\"ik\":{},\"body\":{},\"local\":{}{},{}}}", id, esc(&ik), hb, local, shim_ty, d)
    }
    fn ty_json(&mut self, id: usize) -> String {
        let tcx = self.tcx;
        let t = self.tys[id];
        let s = esc(&format!("{}", t));
        let env = self.env();
        let size = match tcx.layout_of(env.as_query_input(t)) {
            Ok(l) if l.is_sized() => format!("{}", l.size.bytes()),
            _ => "null".into(),
        };
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Ref(_, x, m) => { let x = self.ty(x); format!("\"k\":\"ref\",\"t\":{},\"mut\":{}", x, m.is_mut()) }
            ty::RawPtr(x, m) => { let x = self.ty(x); format!("\"k\":\"ptr\",\"t\":{},\"mut\":{}", x, m.is_mut()) }
            ty::Slice(x) => { let x = self.ty(x); format!("\"k\":\"slice\",\"t\":{}", x) }
            ty::Array(x, n) => {
                let x = self.ty(x);
                let n = n.try_to_target_usize(tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", x, n)
            }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect(); format!("\"k\":\"tuple\",\"ts\":[{}]", v.join(",")) }
            ty::FnDef(d, args) => {
                let args = self.tcx.erase_and_anonymize_regions(args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
                match self.resolve(d, args) {
                    Some(i) => { let i = self.inst(i); format!("\"k\":\"fndef\",\"inst\":{}", i) }
                    None => format!("\"k\":\"fndef\",\"inst\":null,\"path\":{}", esc(&self.path(d))),
                }
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Closure(d, args) => {
                let c = args.as_closure();
                let up: Vec<Ty<'tcx>> = c.upvar_tys().iter().collect();
                let up: Vec<String> = up.into_iter().map(|x| { let x = self.norm(x); self.ty(x).to_string() }).collect();
                let inst = Instance::new_raw(d, self.tcx.erase_and_anonymize_regions(args));
                let i = self.inst(inst);
                format!("\"k\":\"closure\",\"path\":{},\"ups\":[{}],\"inst\":{},\"ck\":{}", esc(&self.path(d)), up.join(","), i, esc(&format!("{:?}", c.kind())))
            }
            ty::Adt(d, args) => {
                let ga = self.gargs(args);
                let mut vs = vec![];
                for (vi, v) in d.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.try_normalize_erasing_regions(env, ft).unwrap_or_else(|_| tcx.types.never);
                        let fi = self.ty(ft);
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), fi));
                    }
                    let disc = if d.is_enum() { d.discriminant_for_variant(tcx, vi).to_string() } else { "0".into() };
                    let disc: String = disc.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), if disc.is_empty() { "0".into() } else { disc }, fs.join(",")));
                }
                let k = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
                let dt = if d.is_enum() {
                    let dt = t.discriminant_ty(tcx);
                    let x = self.ty(dt);
                    format!(",\"dt\":{}", x)
                } else { String::new() };
                format!("\"k\":\"{}\",\"path\":{},\"args\":{},\"box\":{},\"vs\":[{}]{}", k, esc(&self.path(d.did())), ga, d.is_box(), vs.join(","), dt)
            }
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{\"id\":{},\"s\":{},\"size\":{},{}}}", id, s, size, body)
    }
    // ---- constants
    fn const_json(&mut self, c: mir::Const<'tcx>, span: Span) -> String {
        let ty = self.norm(c.ty());
        let tid = self.ty(ty);
        if let ty::FnDef(..) = ty.kind() {
            return format!("[\"fn\",{}]", tid);
        }
        let v = match c.eval(self.tcx, self.env(), span) {
            Ok(v) => v,
            Err(_) => return format!("[\"u\",{},\"eval\"]", tid),
        };
        if let ConstValue::ZeroSized = v {
            return format!("[\"z\",{}]", tid);
        }
        let r = rustc_const_eval::const_eval::mk_eval_cx_for_const_val(self.tcx.at(DUMMY_SP), self.env(), v, ty);
        match r {
            None => format!("[\"u\",{},\"ecx\"]", tid),
            Some((ecx, op)) => self.op_json(&ecx, &op, 0),
        }
    }
    fn op_json(&mut self, ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>, op: &rustc_const_eval::interpret::OpTy<'tcx>, depth: usize) -> String {
        use rustc_const_eval::interpret::Projectable;
        let t = op.layout.ty;
        let tid = self.ty(t);
        let bad = |s: &str| format!("[\"u\",{},{}]", tid, esc(s));
        if depth > 12 {
            return bad("depth");
        }
        macro_rules! tr { ($e:expr, $s:expr) => { match $e.discard_err() { Some(x) => x, None => return bad($s) } } }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let s = tr!(ecx.read_scalar(op), "scalar");
                let sz = op.layout.size;
                match s.try_to_scalar_int() {
                    Ok(si) => {
                        let v = match t.kind() {
                            ty::Int(_) => si.to_int(sz).to_string(),
                            _ => si.to_uint(sz).to_string(),
                        };
                        format!("[\"i\",{},{}]", tid, v)
                    }
                    Err(_) => bad("int"),
                }
            }
            ty::Float(_) => bad("float"),
            ty::FnDef(..) => format!("[\"fn\",{}]", tid),
            ty::FnPtr(..) => {
                let s = tr!(ecx.read_pointer(op), "fnptr");
                match ecx.get_ptr_fn(s).discard_err() {
                    Some(f) => match f {
                        rustc_const_eval::interpret::FnVal::Instance(i) => { let i = self.inst(i); format!("[\"fp\",{},{}]", tid, i) }
                        _ => bad("fnptr"),
                    },
                    None => bad("fnptr"),
                }
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    let f = tr!(ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)), "field");
                    v.push(self.op_json(ecx, &f, depth + 1));
                }
                format!("[\"a\",{},0,[{}]]", tid, v.join(","))
            }
            ty::Array(_, _) => {
                let n = tr!(op.len(ecx), "len");
                if n > 4096 { return bad("long"); }
                let mut v = vec![];
                for i in 0..n {
                    let f = tr!(ecx.project_index(op, i), "idx");
                    v.push(self.op_json(ecx, &f, depth + 1));
                }
                format!("[\"l\",{},[{}]]", tid, v.join(","))
            }
            ty::Closure(_, args) => {
                let n = args.as_closure().upvar_tys().len();
                let mut v = vec![];
                for i in 0..n {
                    let f = tr!(ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)), "field");
                    v.push(self.op_json(ecx, &f, depth + 1));
                }
                format!("[\"a\",{},0,[{}]]", tid, v.join(","))
            }
            ty::Adt(d, _) if !d.is_union() => {
                let (vi, base) = if d.is_enum() {
                    let vi = tr!(ecx.read_discriminant(op), "discr");
                    (vi, tr!(ecx.project_downcast(op, vi), "downcast"))
                } else {
                    (rustc_abi::FIRST_VARIANT, op.clone())
                };
                let n = d.variant(vi).fields.len();
                let mut v = vec![];
                for i in 0..n {
                    let f = tr!(ecx.project_field(&base, rustc_abi::FieldIdx::from_usize(i)), "field");
                    v.push(self.op_json(ecx, &f, depth + 1));
                }
                format!("[\"a\",{},{},[{}]]", tid, vi.as_usize(), v.join(","))
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if matches!(inner.kind(), ty::Dynamic(..)) { return bad("dyn"); }
                let mp = match ecx.deref_pointer(op).discard_err() { Some(m) => m, None => return bad("deref") };
                match *inner.kind() {
                    ty::Str => {
                        let s = tr!(ecx.read_str(&mp), "str").to_string();
                        format!("[\"s\",{},{}]", tid, arr(s.bytes().map(|b| b.to_string())))
                    }
                    ty::Slice(_) => {
                        let n = tr!(mp.len(ecx), "slen");
                        if n > 4096 { return bad("long"); }
                        let mut v = vec![];
                        for i in 0..n {
                            let f = tr!(ecx.project_index(&mp, i), "sidx");
                            let f = tr!(f.to_op(ecx), "toop");
                            v.push(self.op_json(ecx, &f, depth + 1));
                        }
                        let it = self.ty(inner);
                        format!("[\"r\",{},[\"l\",{},[{}]]]", tid, it, v.join(","))
                    }
                    _ => {
                        let f = tr!(mp.to_op(ecx), "toop");
                        let x = self.op_json(ecx, &f, depth + 1);
                        format!("[\"r\",{},{}]", tid, x)
                    }
                }
            }
            _ => bad("kind"),
        }
    }
    // ---- bodies
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\"f\",{},{}]", f.as_usize(), t) }
                ProjectionElem::Index(l) => format!("[\"x\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "\"cast\"".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.const_json(c.const_, c.span)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.norm(*t);
                let o = self.operand(o);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o, self.ty(t))
            }
            Rvalue::BinaryOp(b, x) => { let a = self.operand(&x.0); let c = self.operand(&x.1); format!("[\"bin\",\"{:?}\",{},{}]", b, a, c) }
            Rvalue::UnaryOp(b, x) => { let a = self.operand(x); format!("[\"un\",\"{:?}\",{}]", b, a) }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ops = ops.join(",");
                match **k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",0,[{}]]", ops),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,[{}]]", ops),
                    AggregateKind::Adt(_, v, _, _, f) => match f {
                        Some(f) => format!("[\"agg\",\"union\",{},[{}]]", f.as_usize(), ops),
                        None => format!("[\"agg\",\"adt\",{},[{}]]", v.as_usize(), ops),
                    },
                    AggregateKind::Closure(..) => format!("[\"agg\",\"closure\",0,[{}]]", ops),
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(t); format!("[\"agg\",\"rawptr\",{},[{}]]", t, ops) }
                    _ => format!("[\"agg\",\"other\",0,[{}]]", ops),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
        }
    }
    fn body_json(&mut self, id: usize) -> String {
        let i = self.insts[id];
        if !self.has_body(i) {
            return "{\"err\":\"nobody\"}".into();
        }
        let tcx = self.tcx;
        let body = tcx.instance_mir(i.def);
        let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, body.clone()));
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let pt = a.0.ty(&body.local_decls, tcx).ty;
                        let pt = self.ty(pt);
                        let r = self.rvalue(&a.1);
                        format!("[\"=\",{},{},{},{}]", p, r, pt, esc(&self.span(s.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        let pt = place.ty(&body.local_decls, tcx).ty;
                        format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), self.ty(pt))
                    }
                    StatementKind::Intrinsic(n) => match &**n {
                        NonDivergingIntrinsic::Assume(_) => continue,
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => "[\"cno\"]".to_string(),
                    },
                    _ => continue,
                };
                stmts.push(j);
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let d = self.operand(discr);
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{},{},{}]", d, ts.join(","), targets.otherwise().as_usize(), dt, sp)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), pt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let mk = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "div0",
                        AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference | AssertKind::NullReferenceConstructed | AssertKind::InvalidEnumConstruction(_) => "ub",
                        _ => "other",
                    };
                    let c = self.operand(cond);
                    format!("[\"assert\",{},{},{},\"{}\",{},{}]", c, expected, target.as_usize(), mk, esc(&m), sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let f = match *fty.kind() {
                        ty::FnDef(d, ga) => {
                            let ga = tcx.erase_and_anonymize_regions(ga.no_bound_vars().unwrap_or_else(|| ga.skip_binder()));
                            match self.resolve(d, ga) {
                                Some(inst) => self.inst(inst).to_string(),
                                None => format!("[\"unres\",{}]", esc(&self.path(d))),
                            }
                        }
                        _ => { let o = self.operand(func); format!("[\"dyn\",{}]", o) }
                    };
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!("[\"call\",{},[{}],{},{},{},{},[{}]]", f, a.join(","), d, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), sp, dt, at.join(","))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"c\":{},\"s\":[{}],\"t\":{}}}", bb.is_cleanup, stmts.join(","), term));
        }
        format!(
            "{{\"argc\":{},\"locals\":[{}],\"spread\":{},\"blocks\":[{}]}}",
            body.arg_count,
            locals.join(","),
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            blocks.join(",")
        )
    }
    fn find_local(&self, path: &str) -> Option<DefId> {
        for ld in self.tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && self.path(d) == path {
                return Some(d);
            }
        }
        None
    }
    fn handle(&mut self, line: &str) -> String {
        let p: Vec<&str> = line.split('\t').collect();
        let tcx = self.tcx;
        match p[0] {
            "fns" => {
                let mut v = vec![];
                for ld in tcx.hir_crate_items(()).definitions() {
                    let d = ld.to_def_id();
                    if matches!(tcx.def_kind(d), DefKind::Fn) {
                        v.push(esc(&self.path(d)));
                    }
                }
                arr(v)
            }
            "root" => match self.find_local(p[1]) {
                None => "null".into(),
                Some(d) => {
                    let mut targs: Vec<Ty<'tcx>> = vec![];
                    if p.len() > 2 {
                        for x in p[2].split(',').filter(|s| !s.is_empty()) {
                            targs.push(self.tys[x.parse::<usize>().unwrap()]);
                        }
                    }
                    let mut k = 0;
                    let args = ty::GenericArgs::for_item(tcx, d, |prm, _| match prm.kind {
                        ty::GenericParamDefKind::Type { .. } => {
                            let t = targs.get(k).copied().unwrap_or(tcx.types.unit);
                            k += 1;
                            t.into()
                        }
                        ty::GenericParamDefKind::Lifetime => GenericArg::from(tcx.lifetimes.re_erased),
                        ty::GenericParamDefKind::Const { .. } => GenericArg::from(ty::Const::from_target_usize(tcx, 0)),
                    });
                    match self.resolve(d, args) {
                        Some(i) => self.inst(i).to_string(),
                        None => "null".into(),
                    }
                }
            },
            "sig" => {
                let i = self.insts[p[1].parse::<usize>().unwrap()];
                let t = i.ty(tcx, self.env());
                let sig = match t.kind() {
                    ty::Closure(_, a) => a.as_closure().sig(),
                    _ => t.fn_sig(tcx),
                };
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let ins: Vec<Ty<'tcx>> = sig.inputs().iter().copied().collect();
                let ins: Vec<String> = ins.into_iter().map(|t| { let t = self.norm(t); self.ty(t).to_string() }).collect();
                let o = self.norm(sig.output());
                format!("{{\"in\":[{}],\"out\":{}}}", ins.join(","), self.ty(o))
            }
            "body" => self.body_json(p[1].parse().unwrap()),
            "inst" => self.inst_json(p[1].parse().unwrap()),
            "ty" => self.ty_json(p[1].parse().unwrap()),
            // tm <trait path> <method> <ty,ty..>: resolve a trait method for Self (+ trait args)
            "tm" => {
                let ts: Vec<Ty<'tcx>> = p[3].split(',').filter(|s| !s.is_empty()).map(|x| self.tys[x.parse::<usize>().unwrap()]).collect();
                for tr in tcx.all_traits_including_private() {
                    if self.path(tr) == p[1] {
                        for it in tcx.associated_items(tr).in_definition_order() {
                            if it.opt_name().map(|n| n.to_string()).as_deref() == Some(p[2]) {
                                let mut k = 0;
                                let args = ty::GenericArgs::for_item(tcx, it.def_id, |prm, _| match prm.kind {
                                    ty::GenericParamDefKind::Type { .. } => {
                                        let t = ts.get(k).copied().unwrap_or(tcx.types.unit);
                                        k += 1;
                                        t.into()
                                    }
                                    _ => GenericArg::from(tcx.lifetimes.re_erased),
                                });
                                // default body instead of the override?
                                if p.len() > 4 && p[4] == "default" {
                                    let inst = Instance::new_raw(it.def_id, tcx.erase_and_anonymize_regions(args));
                                    return self.inst(inst).to_string();
                                }
                                return match self.resolve(it.def_id, args) {
                                    Some(i) => self.inst(i).to_string(),
                                    None => "null".into(),
                                };
                            }
                        }
                    }
                }
                "null".into()
            }
            // default <inst>: the trait's default body for the same Self/args as an overriding impl method
            "default" => {
                let i = self.insts[p[1].parse::<usize>().unwrap()];
                let did = i.def_id();
                if let Some(ai) = tcx.opt_associated_item(did) {
                    if let Some(tdid) = ai.trait_item_def_id() {
                        let imp = tcx.parent(did);
                        if let DefKind::Impl { of_trait: true } = tcx.def_kind(imp) {
                            let n = tcx.generics_of(imp).count();
                            let pargs = tcx.mk_args(&i.args[..n]);
                            let tr = tcx.impl_trait_ref(imp).instantiate(tcx, pargs);
                            let tr = tcx.normalize_erasing_regions(self.env(), tr);
                            let mut a: Vec<GenericArg<'tcx>> = tr.args.iter().collect();
                            a.extend(i.args.iter().skip(n));
                            let inst = Instance::new_raw(tdid, tcx.mk_args(&a));
                            return self.inst(inst).to_string();
                        }
                    }
                }
                "null".into()
            }
            "mkref" => {
                let t = self.tys[p[1].parse::<usize>().unwrap()];
                let r = Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, t);
                self.ty(r).to_string()
            }
            "crates" => arr(tcx.crates(()).iter().map(|c| esc(tcx.crate_name(*c).as_str())).collect::<Vec<_>>()),
            // every fn-like item of a crate: path, location, unsafe, whether MIR is there
            "items" => {
                let mut v = vec![];
                for c in tcx.crates(()).iter() {
                    if tcx.crate_name(*c).as_str() != p[1] { continue; }
                    let n = tcx.num_extern_def_ids(*c);
                    for ix in 0..n {
                        let d = DefId { krate: *c, index: rustc_span::def_id::DefIndex::from_usize(ix) };
                        let k = tcx.def_kind(d);
                        if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Static { .. } | DefKind::Closure | DefKind::Impl { .. } | DefKind::Const | DefKind::AssocConst | DefKind::Struct | DefKind::Enum | DefKind::ForeignMod) { continue; }
                        let mir = matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && !tcx.is_foreign_item(d) && tcx.is_mir_available(d);
                        let mut extra = String::new();
                        if let DefKind::Static { mutability, .. } = k {
                            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                            let frz = st.is_freeze(tcx, self.env());
                            extra = format!(",\"mut\":{},\"freeze\":{}", mutability.is_mut(), frz);
                        }
                        if matches!(k, DefKind::Fn | DefKind::AssocFn) {
                            let us = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
                            extra = format!(",\"unsafe\":{}", us);
                        }
                        v.push(format!("{{\"p\":{},\"k\":{},\"mir\":{},\"loc\":{}{}}}", esc(&self.path(d)), esc(&format!("{:?}", k)), mir, esc(&self.span(tcx.def_span(d))), extra));
                    }
                }
                arr(v)
            }
            // generic (uninstantiated) call/cast/unsafe facts for one crate's bodies
            "polybody" => {
                let mut v = vec![];
                for c in tcx.crates(()).iter().chain(std::iter::once(&rustc_span::def_id::LOCAL_CRATE)) {
                    if tcx.crate_name(*c).as_str() != p[1] { continue; }
                    let local = *c == rustc_span::def_id::LOCAL_CRATE;
                    let n = if local { tcx.definitions().num_definitions() } else { tcx.num_extern_def_ids(*c) };
                    for ix in 0..n {
                        let d = DefId { krate: *c, index: rustc_span::def_id::DefIndex::from_usize(ix) };
                        let k = tcx.def_kind(d);
                        if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) || tcx.is_foreign_item(d) || !tcx.is_mir_available(d) { continue; }
                        v.push(self.poly(d));
                    }
                }
                arr(v)
            }
            _ => "{\"err\":\"cmd\"}".into(),
        }
    }
    fn poly(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let body = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && matches!(tcx.constness(d), rustc_hir::Constness::Const { always: true }) { tcx.mir_for_ctfe(d) } else { tcx.optimized_mir(d) };
        let mut calls = vec![];
        let mut facts = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { continue; }
            for s in &bb.statements {
                if let StatementKind::Assign(a) = &s.kind {
                    // raw pointer dereference anywhere in the statement
                    let mut raw = false;
                    let mut chk = |pl: &Place<'tcx>| {
                        for (base, e) in pl.iter_projections() {
                            if let ProjectionElem::Deref = e {
                                if base.ty(&body.local_decls, tcx).ty.is_raw_ptr() { raw = true; }
                            }
                        }
                    };
                    chk(&a.0);
                    match &a.1 {
                        Rvalue::Use(Operand::Copy(p) | Operand::Move(p), _) | Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Discriminant(p) | Rvalue::CopyForDeref(p) => chk(p),
                        _ => {}
                    }
                    if raw { facts.push(format!("[\"rawderef\",{}]", esc(&self.span(s.source_info.span)))); }
                    match &a.1 {
                        Rvalue::Cast(k, o, t) => {
                            let from = o.ty(&body.local_decls, tcx);
                            facts.push(format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), esc(&format!("{}", from)), esc(&format!("{}", t)), esc(&self.span(s.source_info.span))));
                        }
                        Rvalue::ThreadLocalRef(d) => facts.push(format!("[\"tls\",{},{}]", esc(&self.path(*d)), esc(&self.span(s.source_info.span)))),
                        _ => {}
                    }
                    if let Rvalue::Use(Operand::Constant(c), _) = &a.1 {
                        if let mir::Const::Val(ConstValue::Scalar(rustc_const_eval::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
                            if let Some(mir::interpret::GlobalAlloc::Static(sd)) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                                facts.push(format!("[\"static\",{},{}]", esc(&self.path(sd)), esc(&self.span(s.source_info.span))));
                            }
                        }
                    }
                }
            }
            if let TerminatorKind::Call { func, .. } = &bb.terminator().kind {
                let fty = func.ty(&body.local_decls, tcx);
                let sp = esc(&self.span(bb.terminator().source_info.span));
                match *fty.kind() {
                    ty::FnDef(cd, ga) => {
                        let us = tcx.fn_sig(cd).skip_binder().safety().is_unsafe();
                        let g = format!("{:?}", ga);
                        calls.push(format!("[{},{},{},{}]", esc(&self.path(cd)), us, sp, esc(&g)));
                    }
                    _ => calls.push(format!("[\"<indirect>\",false,{},\"\"]", sp)),
                }
            }
        }
        format!("{{\"p\":{},\"loc\":{},\"calls\":[{}],\"facts\":[{}]}}", esc(&self.path(d)), esc(&self.span(tcx.def_span(d))), calls.join(","), facts.join(","))
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Stop;
        }
        let mut cx = Cx { tcx, tys: vec![], ty_ix: HashMap::new(), insts: vec![], inst_ix: HashMap::new() };
        let stdin = std::io::stdin();
        let out = std::io::stdout();
        {
            let mut o = out.lock();
            let _ = o.write_all(b"READY\n");
            let _ = o.flush();
        }
        for line in stdin.lock().lines() {
            let line = match line { Ok(l) => l, Err(_) => break };
            if line == "quit" { break; }
            let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cx.handle(&line))) {
                Ok(r) => r,
                Err(_) => "{\"err\":\"panic\"}".to_string(),
            };
            let mut o = out.lock();
            let _ = o.write_all(r.as_bytes());
            let _ = o.write_all(b"\n");
            let _ = o.flush();
        }
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc. Record the command line and compile normally.
    if let Ok(f) = std::env::var("MIRSERVE_RECORD") {
        let is_target = args.iter().zip(args.iter().skip(1)).any(|(a, b)| a == "--crate-name" && b == "vh");
        if is_target {
            let envs: Vec<String> = std::env::vars().filter(|(k, _)| k.starts_with("CARGO") || k == "OUT_DIR").map(|(k, v)| format!("{}:{}", esc(&k), esc(&v))).collect();
            let cwd = std::env::current_dir().unwrap();
            let j = format!("{{\"args\":{},\"env\":{{{}}},\"cwd\":{}}}", arr(args[1..].iter().map(|a| esc(a))), envs.join(","), esc(cwd.to_str().unwrap()));
            std::fs::write(f, j).unwrap();
        }
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args.remove(0);
    let _ = rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
}
