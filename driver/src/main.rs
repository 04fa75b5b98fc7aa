// MIR fact extractor: a rustc driver (injected with RUSTC_WORKSPACE_WRAPPER) that lets rustc
// type-check the crate with the real build's flags and dumps, for every body of the crate, the MIR
// with resolved callees, plus the ADT tables. Output: $MIRFACTS_DIR/<crate>.json
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    esc(s, &mut o);
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    def: DefId,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(q(&t.to_string()))
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn pos(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let name = loc.file.name.prefer_local_unconditionally().to_string();
        (name, loc.line)
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("{{\"l\":{}", p.local.as_u32());
        if !p.projection.is_empty() {
            o.push_str(",\"p\":[");
            let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
            for (i, e) in p.projection.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                match e {
                    ProjectionElem::Deref => o.push_str("\"*\""),
                    ProjectionElem::Field(f, _) => {
                        let mut name = String::new();
                        if let ty::Adt(adt, _) = pty.ty.kind() {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if adt.is_struct() || adt.is_union() || pty.variant_index.is_some() {
                                name = adt.variant(v).fields[f].name.to_string();
                            }
                        }
                        let _ = write!(o, "{{\"f\":{},\"n\":{}}}", f.as_u32(), q(&name));
                    }
                    ProjectionElem::Index(l) => {
                        let _ = write!(o, "{{\"i\":{}}}", l.as_u32());
                    }
                    ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                        let _ = write!(o, "{{\"ci\":{},\"min\":{},\"end\":{}}}", offset, min_length, from_end);
                    }
                    ProjectionElem::Subslice { from, to, from_end } => {
                        let _ = write!(o, "{{\"sub\":{},\"to\":{},\"end\":{}}}", from, to, from_end);
                    }
                    ProjectionElem::Downcast(n, v) => {
                        let _ = write!(o, "{{\"d\":{},\"n\":{}}}", v.as_u32(), q(&n.map(|s| s.to_string()).unwrap_or_default()));
                    }
                    _ => o.push_str("\"?\""),
                }
                pty = pty.projection_ty(self.tcx, e);
            }
            o.push(']');
        }
        o.push('}');
        o
    }
    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, self.def);
        let mut res = String::new();
        let mut kind = "none";
        let args_e = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args_e) {
                res = self.path(inst.def_id());
                kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
            }
        }
        let mut o = format!("{{\"fn\":{},\"res\":{},\"k\":{}", q(&self.path(d)), q(&res), q(kind));
        o.push_str(",\"ga\":[");
        let mut first = true;
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&self.ty(t));
            } else if let Some(c) = a.as_const() {
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&q(&format!("const {}", c)));
            }
        }
        o.push_str("]");
        if let ty::Closure(cd, _) = args.types().next().map(|t| *t.kind()).unwrap_or(ty::Bool) {
            let _ = write!(o, ",\"cl\":{}", q(&self.path(cd)));
        }
        o.push('}');
        o
    }
    fn constant(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = format!("{{\"c\":1,\"ty\":{}", self.ty(t));
        match t.kind() {
            ty::FnDef(d, args) => {
                let args: ty::GenericArgsRef<'tcx> = args.no_bound_vars().unwrap_or_else(|| tcx.erase_and_anonymize_regions(args.skip_binder()));
                let _ = write!(o, ",\"fnref\":{}", self.fnref(*d, args));
            }
            ty::Closure(d, _) => {
                let _ = write!(o, ",\"closure\":{}", q(&self.path(*d)));
            }
            _ => {
                let env = ty::TypingEnv::post_analysis(tcx, self.def);
                let mut promoted = false;
                if let Const::Unevaluated(u, _) = c.const_ {
                    if let Some(p) = u.promoted {
                        let _ = write!(o, ",\"promoted\":{}", p.as_u32());
                        promoted = true;
                    } else {
                        let _ = write!(o, ",\"item\":{}", q(&self.path(u.def)));
                    }
                }
                if !promoted {
                    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                        match v {
                            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                                let bits = i.to_bits(i.size());
                                match t.kind() {
                                    ty::Bool => {
                                        let _ = write!(o, ",\"v\":{}", bits != 0);
                                    }
                                    ty::Int(_) => {
                                        let n = i.size().sign_extend(bits);
                                        let _ = write!(o, ",\"v\":{}", n as i128);
                                    }
                                    ty::Char => {
                                        let ch = char::from_u32(bits as u32).unwrap_or('?');
                                        let _ = write!(o, ",\"ch\":{}", q(&ch.to_string()));
                                    }
                                    ty::Float(_) => {
                                        let _ = write!(o, ",\"fbits\":{}", bits);
                                    }
                                    _ => {
                                        let _ = write!(o, ",\"v\":{}", bits);
                                    }
                                }
                            }
                            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                                let (prov, _off) = p.into_raw_parts();
                                let id = prov.alloc_id();
                                match tcx.global_alloc(id) {
                                    GlobalAlloc::Static(d) => {
                                        let _ = write!(o, ",\"static\":{}", q(&self.path(d)));
                                    }
                                    GlobalAlloc::Memory(m) => {
                                        let a = m.inner();
                                        if a.provenance().ptrs().is_empty() {
                                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                            let _ = write!(o, ",\"bytes\":{}", q(&String::from_utf8_lossy(b)));
                                        } else {
                                            o.push_str(",\"mem\":1");
                                        }
                                    }
                                    _ => o.push_str(",\"ptr\":1"),
                                }
                            }
                            ConstValue::ZeroSized => o.push_str(",\"zst\":1"),
                            ConstValue::Slice { .. } => {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                    let _ = write!(o, ",\"s\":{}", q(&String::from_utf8_lossy(b)));
                                }
                            }
                            ConstValue::Indirect { alloc_id, offset } => {
                                // small aggregates of integers
                                o.push_str(",\"indirect\":1");
                                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                                    let a = m.inner();
                                    let off = offset.bytes() as usize;
                                    if a.provenance().ptrs().is_empty() && a.len() - off <= 64 {
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..a.len());
                                        o.push_str(",\"raw\":[");
                                        for (i, x) in b.iter().enumerate() {
                                            if i > 0 {
                                                o.push(',');
                                            }
                                            let _ = write!(o, "{}", x);
                                        }
                                        o.push(']');
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        o.push('}');
        o
    }
    fn operand(&self, b: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(b, p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(b, p)),
            Operand::Constant(c) => self.constant(c),
            _ => "{\"rt\":1}".to_string(),
        }
    }
    fn rvalue(&self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(b, o)),
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.operand(b, o), q(&n.to_string())),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("{{\"r\":\"ref\",\"m\":{},\"pl\":{}}}", m, self.place(b, p))
            }
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"raw\",\"k\":{},\"pl\":{}}}", q(&format!("{:?}", k)), self.place(b, p)),
            Rvalue::Cast(k, o, t) => format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"ty\":{}}}", q(&format!("{:?}", k)), self.operand(b, o), self.ty(*t)),
            Rvalue::BinaryOp(op, ab) => format!("{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", q(&format!("{:?}", op)), self.operand(b, &ab.0), self.operand(b, &ab.1)),
            Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", q(&format!("{:?}", op)), self.operand(b, a)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"pl\":{},\"ty\":{}}}", self.place(b, p), self.ty(p.ty(b, self.tcx).ty)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"cp\":{}}}}}", self.place(b, p)),
            Rvalue::Aggregate(k, ops) => {
                let mut o = String::from("{\"r\":\"agg\",");
                match &**k {
                    AggregateKind::Array(t) => {
                        let _ = write!(o, "\"k\":\"array\",\"ty\":{}", self.ty(*t));
                    }
                    AggregateKind::Tuple => o.push_str("\"k\":\"tuple\""),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        let vd = adt.variant(*v);
                        let _ = write!(o, "\"k\":\"adt\",\"adt\":{},\"v\":{},\"vn\":{},\"en\":{}", q(&self.path(*d)), v.as_u32(), q(vd.name.as_str()), adt.is_enum());
                    }
                    AggregateKind::Closure(d, _) => {
                        let _ = write!(o, "\"k\":\"closure\",\"cl\":{}", q(&self.path(*d)));
                    }
                    _ => o.push_str("\"k\":\"other\""),
                }
                o.push_str(",\"ops\":[");
                for (i, x) in ops.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&self.operand(b, x));
                }
                o.push_str("]}");
                o
            }
            other => format!("{{\"r\":\"other\",\"s\":{}}}", q(&format!("{:?}", other))),
        }
    }
    fn body(&self, b: &Body<'tcx>, name: &str, kind: &str, extra: &str) -> String {
        let (file, line) = self.pos(b.span);
        let mut o = format!("{{\"path\":{},\"kind\":{},\"file\":{},\"line\":{},\"argc\":{}{}", q(name), q(kind), q(&file), line, b.arg_count, extra);
        o.push_str(",\"locals\":[");
        for (i, d) in b.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&self.ty(d.ty));
        }
        o.push_str("],\"names\":[");
        let mut first = true;
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if !first {
                    o.push(',');
                }
                first = false;
                let _ = write!(o, "[{},{}]", q(v.name.as_str()), self.place(b, &p));
            }
        }
        o.push_str("],\"bbs\":[");
        for (bi, bb) in b.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cu\":{},\"s\":[", bb.is_cleanup as u8);
            let mut first = true;
            for s in &bb.statements {
                let txt = match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (_, l) = self.pos(s.source_info.span);
                        format!("{{\"d\":{},\"v\":{},\"ln\":{}}}", self.place(b, &pr.0), self.rvalue(b, &pr.1), l)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("{{\"d\":{},\"v\":{{\"r\":\"setdiscr\",\"v\":{}}},\"ln\":0}}", self.place(b, place), variant_index.as_u32())
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&txt);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let (_, ln) = self.pos(t.source_info.span);
            let txt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut x = format!("{{\"k\":\"switch\",\"a\":{},\"ty\":{},\"ts\":[", self.operand(b, discr), self.ty(discr.ty(b, self.tcx)));
                    for (i, (v, t)) in targets.iter().enumerate() {
                        if i > 0 {
                            x.push(',');
                        }
                        let _ = write!(x, "[{},{}]", v, t.as_u32());
                    }
                    let _ = write!(x, "],\"o\":{}", targets.otherwise().as_u32());
                    x
                }
                TerminatorKind::Return => "{\"k\":\"return\"".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"".into(),
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"abort\"".into(),
                TerminatorKind::Drop { place, target, .. } => format!("{{\"k\":\"drop\",\"pl\":{},\"ty\":{},\"t\":{}", self.place(b, place), self.ty(place.ty(b, self.tcx).ty), target.as_u32()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut x = format!("{{\"k\":\"call\",\"f\":{},\"args\":[", self.operand(b, func));
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            x.push(',');
                        }
                        x.push_str(&self.operand(b, &a.node));
                    }
                    let _ = write!(x, "],\"d\":{},\"t\":{}", self.place(b, destination), target.map(|t| t.as_u32() as i64).unwrap_or(-1));
                    x
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(op, a, c) => (format!("overflow {:?}", op), vec![a, c]),
                        AssertKind::OverflowNeg(a) => ("overflow Neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    let mut x = format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"ops\":[", self.operand(b, cond), expected, q(&k));
                    for (i, a) in ops.iter().enumerate() {
                        if i > 0 {
                            x.push(',');
                        }
                        x.push_str(&self.operand(b, a));
                    }
                    let _ = write!(x, "],\"t\":{}", target.as_u32());
                    x
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", real_target.as_u32()),
                other => format!("{{\"k\":\"other\",\"s\":{}", q(&format!("{:?}", other))),
            };
            o.push_str(&txt);
            let _ = write!(o, ",\"ln\":{}}}}}", ln);
        }
        o.push_str("]}");
        o
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("MIRFACTS_DIR") else { return Compilation::Continue };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx.entry_fn(()).is_some();
        let fname = format!("{}/{}{}.json", dir, krate, if is_bin { ".bin" } else { "" });
        let tmp = format!("{}.tmp", fname);
        let mut f = std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap());
        let rustc_v = option_env!("CFG_VERSION").unwrap_or("");
        write!(f, "{{\"crate\":{},\"rustc\":{},\"bodies\":[", q(&krate), q(rustc_v)).unwrap();
        let mut first = true;
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let cx = Cx { tcx, def: d };
            let name = cx.path(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_ctor_const = matches!(kind, DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. });
            if !is_fn && !is_ctor_const {
                continue;
            }
            let mut extra = String::new();
            if is_fn {
                let vis = if matches!(kind, DefKind::Closure) { "closure".to_string() } else { format!("{:?}", tcx.visibility(d)) };
                let _ = write!(extra, ",\"vis\":{}", q(&vis));
                if !matches!(kind, DefKind::Closure) {
                    let sig = tcx.fn_sig(d).skip_binder();
                    let unsafe_ = sig.safety().is_unsafe();
                    let _ = write!(extra, ",\"unsafe\":{}", unsafe_);
                }
                if let Some(p) = tcx.opt_parent(d) {
                    if tcx.def_kind(p) == (DefKind::Impl { of_trait: true }) {
                        let t = tcx.impl_trait_ref(p);
                        let s = with_no_trimmed_paths!(t.skip_binder().to_string());
                        let _ = write!(extra, ",\"impl_of\":{}", q(&s));
                    }
                }
            }
            let b = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            let k = if matches!(kind, DefKind::Closure) { "closure" } else if is_fn { "fn" } else { "const" };
            if !first {
                f.write_all(b",\n").unwrap();
            }
            first = false;
            f.write_all(cx.body(b, &name, k, &extra).as_bytes()).unwrap();
            for (i, p) in tcx.promoted_mir(d).iter().enumerate() {
                f.write_all(b",\n").unwrap();
                let n = format!("{}#promoted{}", name, i);
                f.write_all(cx.body(p, &n, "promoted", "").as_bytes()).unwrap();
            }
        }
        write!(f, "],\n\"adts\":[").unwrap();
        let mut first = true;
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                continue;
            }
            let cx = Cx { tcx, def: d };
            let adt = tcx.adt_def(d);
            if !first {
                f.write_all(b",\n").unwrap();
            }
            first = false;
            let (file, line) = cx.pos(tcx.def_span(d));
            write!(f, "{{\"path\":{},\"file\":{},\"line\":{},\"kind\":{},\"vis\":{},\"variants\":[", q(&cx.path(d)), q(&file), line, q(if adt.is_enum() { "enum" } else { "struct" }), q(&format!("{:?}", tcx.visibility(d)))).unwrap();
            for (i, v) in adt.variants().iter().enumerate() {
                if i > 0 {
                    f.write_all(b",").unwrap();
                }
                write!(f, "{{\"n\":{},\"fields\":[", q(v.name.as_str())).unwrap();
                for (j, fl) in v.fields.iter().enumerate() {
                    if j > 0 {
                        f.write_all(b",").unwrap();
                    }
                    let t = tcx.type_of(fl.did).instantiate_identity();
                    let ts = with_no_trimmed_paths!(format!("{}", t.skip_normalization()));
                    write!(f, "{{\"n\":{},\"ty\":{},\"vis\":{}}}", q(fl.name.as_str()), q(&ts), q(&format!("{:?}", fl.vis))).unwrap();
                }
                f.write_all(b"]}").unwrap();
            }
            f.write_all(b"]}").unwrap();
        }
        write!(f, "],\n\"impls\":[").unwrap();
        let mut first = true;
        for (tr, impls) in tcx.all_local_trait_impls(()) {
            for im in impls {
                let d = im.to_def_id();
                let t = tcx.impl_trait_ref(d);
                let s = with_no_trimmed_paths!(format!("{}", t.skip_binder()));
                let selfty = with_no_trimmed_paths!(format!("{}", t.skip_binder().self_ty()));
                let derived = tcx.is_builtin_derived(d);
                if !first {
                    f.write_all(b",\n").unwrap();
                }
                first = false;
                write!(f, "{{\"trait\":{},\"ref\":{},\"self\":{},\"derived\":{}}}", q(&with_no_trimmed_paths!(tcx.def_path_str(*tr))), q(&s), q(&selfty), derived).unwrap();
            }
        }
        f.write_all(b"]}\n").unwrap();
        f.flush().unwrap();
        drop(f);
        std::fs::rename(&tmp, &fname).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let probing = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    if !probing {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("--cap-lints=allow".into());
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    code
}
