// Fact extractor: a rustc driver that serialises the crate's type-checked MIR (as built, before any
// optimisation), its ADTs and its trait impls to JSON. It decides nothing; the analyses read its output.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_data_structures::steal::Steal;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::cell::RefCell;
use std::sync::OnceLock;

thread_local! {
    static BODIES: RefCell<Vec<(LocalDefId, Body<'static>)>> = RefCell::new(vec![]);
}
type BuiltFn = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIG: OnceLock<BuiltFn> = OnceLock::new();

fn my_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, def);
    let b: Body<'tcx> = r.borrow().clone();
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|v| v.borrow_mut().push((def, b)));
    r
}

struct J(String);
impl J {
    fn s(&mut self, x: &str) {
        self.0.push('"');
        for c in x.chars() {
            match c {
                '"' => self.0.push_str("\\\""),
                '\\' => self.0.push_str("\\\\"),
                '\n' => self.0.push_str("\\n"),
                '\r' => self.0.push_str("\\r"),
                '\t' => self.0.push_str("\\t"),
                c if (c as u32) < 0x20 => self.0.push_str(&format!("\\u{:04x}", c as u32)),
                c => self.0.push(c),
            }
        }
        self.0.push('"');
    }
    fn r(&mut self, x: &str) {
        self.0.push_str(x)
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_crate_prefix!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}
fn tystr(ty: Ty<'_>) -> String {
    with_crate_prefix!(with_no_trimmed_paths!(format!("{}", ty)))
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    tenv: TypingEnv<'tcx>,
    j: J,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>) {
        self.j.r(&format!("[{},[", p.local.as_u32()));
        let mut first = true;
        for (base, elem) in p.iter_projections() {
            if !first {
                self.j.r(",");
            }
            first = false;
            match elem {
                ProjectionElem::Deref => self.j.r("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let pt = base.ty(self.body, self.tcx);
                    let mut name = String::new();
                    let mut adt = String::new();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        adt = path(self.tcx, def.did());
                        let v = match pt.variant_index {
                            Some(v) => v,
                            None => rustc_abi::VariantIdx::from_u32(0),
                        };
                        if v.as_usize() < def.variants().len() {
                            let vd = def.variant(v);
                            if f.as_usize() < vd.fields.len() {
                                name = vd.fields[f].name.to_string();
                            }
                        }
                    }
                    self.j.r(&format!("[\"f\",{},", f.as_u32()));
                    self.j.s(&name);
                    self.j.r(",");
                    self.j.s(&adt);
                    self.j.r("]");
                }
                ProjectionElem::Downcast(n, v) => {
                    self.j.r(&format!("[\"v\",{},", v.as_u32()));
                    self.j.s(&n.map(|x| x.to_string()).unwrap_or_default());
                    self.j.r("]");
                }
                ProjectionElem::Index(l) => self.j.r(&format!("[\"i\",{}]", l.as_u32())),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    self.j.r(&format!("[\"ci\",{},{}]", offset, from_end))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    self.j.r(&format!("[\"sub\",{},{},{}]", from, to, from_end))
                }
                _ => self.j.r("[\"o\"]"),
            }
        }
        self.j.r("]]");
    }

    fn alloc_str(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<String> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let n = a.len() as u64;
                if off + len > n {
                    return None;
                }
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                String::from_utf8(b.to_vec()).ok()
            }
            _ => None,
        }
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        self.j.r("{\"fn\":");
        self.j.s(&path(tcx, d));
        self.j.r(",\"args\":[");
        let mut first = true;
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if !first {
                    self.j.r(",");
                }
                first = false;
                self.j.s(&tystr(t));
            }
        }
        self.j.r("]");
        let mut local = d.is_local();
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let vid = tcx.parent(d);
            let adt = if tcx.def_kind(vid) == DefKind::Variant { tcx.parent(vid) } else { vid };
            self.j.r(",\"ctor\":[");
            self.j.s(&path(tcx, adt));
            self.j.r(",");
            self.j.s(&tcx.item_name(vid).to_string());
            self.j.r("]");
        } else {
            let kind = tcx.def_kind(d);
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let mut args2 = args;
                if let Ok(a) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    tcx.try_normalize_erasing_regions(self.tenv, ty::Unnormalized::new_wip(args))
                })) {
                    if let Ok(a) = a {
                        args2 = a;
                    }
                }
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.tenv, d, args2) {
                    let rd = inst.def_id();
                    if rd != d {
                        self.j.r(",\"res\":");
                        self.j.s(&path(tcx, rd));
                        local = rd.is_local();
                    }
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                self.j.r(",\"trait\":");
                self.j.s(&path(tcx, tr));
            }
        }
        if local {
            self.j.r(",\"local\":1");
        }
        self.j.r("}");
    }

    fn constant(&mut self, c: &Const<'tcx>) {
        let ty = c.ty();
        if let ty::FnDef(d, args) = ty.kind() {
            let args = args.skip_binder();
            self.fnref(*d, args);
            return;
        }
        match c {
            Const::Val(v, _) => {
                match v {
                    ConstValue::Scalar(Scalar::Int(i)) => {
                        let bits = i.to_bits(i.size());
                        match ty.kind() {
                            ty::Bool => {
                                self.j.r(&format!("{{\"bool\":{}}}", bits != 0));
                                return;
                            }
                            ty::Int(_) => {
                                let x = i.size().sign_extend(bits);
                                self.j.r(&format!("{{\"int\":{}}}", x));
                                return;
                            }
                            ty::Uint(_) => {
                                self.j.r(&format!("{{\"int\":{}}}", bits));
                                return;
                            }
                            ty::Char => {
                                let s = char::from_u32(bits as u32).unwrap_or('?').to_string();
                                self.j.r("{\"char\":");
                                self.j.s(&s);
                                self.j.r("}");
                                return;
                            }
                            ty::Float(_) => {
                                self.j.r("{\"float\":");
                                let t = with_no_trimmed_paths!(format!("{}", c));
                                self.j.s(&t);
                                self.j.r("}");
                                return;
                            }
                            _ => {}
                        }
                    }
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        let id = prov.alloc_id();
                        if let GlobalAlloc::Static(d) = self.tcx.global_alloc(id) {
                            self.j.r("{\"static\":");
                            let s = path(self.tcx, d);
                            self.j.s(&s);
                            self.j.r("}");
                            return;
                        }
                        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(id) {
                            let n = m.inner().len() as u64;
                            if m.inner().provenance().ptrs().is_empty() {
                                let b = m
                                    .inner()
                                    .inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..n as usize)
                                    .to_vec();
                                self.j.r(&format!("{{\"bytes\":{:?}}}", b));
                                return;
                            }
                        }
                    }
                    ConstValue::ZeroSized => {
                        self.j.r("{\"zst\":");
                        let s = tystr(ty);
                        self.j.s(&s);
                        self.j.r("}");
                        return;
                    }
                    ConstValue::Slice { alloc_id, meta } => {
                        if let Some(s) = self.alloc_str(*alloc_id, 0, *meta) {
                            self.j.r("{\"str\":");
                            self.j.s(&s);
                            self.j.r("}");
                            return;
                        }
                    }
                    _ => {}
                }
            }
            Const::Unevaluated(u, _) => {
                self.j.r("{\"uneval\":");
                let s = path(self.tcx, u.def);
                self.j.s(&s);
                self.j.r(",\"ty\":");
                let s = tystr(ty);
                self.j.s(&s);
                self.j.r("}");
                return;
            }
            _ => {}
        }
        self.j.r("{\"other\":");
        let s = with_no_trimmed_paths!(format!("{:?}", c));
        self.j.s(&s);
        self.j.r(",\"ty\":");
        let s = tystr(ty);
        self.j.s(&s);
        self.j.r("}");
    }

    fn operand(&mut self, o: &Operand<'tcx>) {
        match o {
            Operand::Copy(p) => {
                self.j.r("[\"c\",");
                self.place(p);
                self.j.r("]");
            }
            Operand::Move(p) => {
                self.j.r("[\"m\",");
                self.place(p);
                self.j.r("]");
            }
            Operand::Constant(c) => {
                self.j.r("[\"k\",");
                self.constant(&c.const_);
                self.j.r("]");
            }
            _ => self.j.r("[\"rt\"]"),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) {
        match r {
            Rvalue::Use(o, ..) => {
                self.j.r("[\"use\",");
                self.operand(o);
                self.j.r("]");
            }
            Rvalue::Ref(_, bk, p) => {
                self.j.r(&format!("[\"ref\",{},", if matches!(bk, BorrowKind::Mut { .. }) { 1 } else { 0 }));
                self.place(p);
                self.j.r("]");
            }
            Rvalue::RawPtr(_, p) => {
                self.j.r("[\"ref\",1,");
                self.place(p);
                self.j.r("]");
            }
            Rvalue::Cast(k, o, t) => {
                self.j.r("[\"cast\",");
                let ks = format!("{:?}", k);
                self.j.s(&ks);
                self.j.r(",");
                self.operand(o);
                self.j.r(",");
                self.j.s(&tystr(*t));
                self.j.r("]");
            }
            Rvalue::BinaryOp(op, b) => {
                self.j.r("[\"bin\",");
                self.j.s(&format!("{:?}", op));
                self.j.r(",");
                self.operand(&b.0);
                self.j.r(",");
                self.operand(&b.1);
                self.j.r("]");
            }
            Rvalue::UnaryOp(op, o) => {
                self.j.r("[\"un\",");
                self.j.s(&format!("{:?}", op));
                self.j.r(",");
                self.operand(o);
                self.j.r("]");
            }
            Rvalue::Discriminant(p) => {
                self.j.r("[\"disc\",");
                self.place(p);
                self.j.r(",");
                let t = p.ty(self.body, self.tcx).ty;
                let a = match t.kind() {
                    ty::Adt(d, _) => path(self.tcx, d.did()),
                    _ => tystr(t),
                };
                self.j.s(&a);
                self.j.r("]");
            }
            Rvalue::Aggregate(k, ops) => {
                self.j.r("[\"agg\",");
                match &**k {
                    AggregateKind::Array(_) => self.j.r("[\"array\"]"),
                    AggregateKind::Tuple => self.j.r("[\"tuple\"]"),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let adt = self.tcx.adt_def(*d);
                        let vd = adt.variant(*v);
                        self.j.r("[\"adt\",");
                        let s = path(self.tcx, *d);
                        self.j.s(&s);
                        self.j.r(",");
                        self.j.s(&vd.name.to_string());
                        self.j.r(",[");
                        let mut first = true;
                        for f in vd.fields.iter() {
                            if !first {
                                self.j.r(",")
                            }
                            first = false;
                            self.j.s(&f.name.to_string());
                        }
                        self.j.r("]");
                        if active.is_some() {
                            self.j.r(",\"union\"");
                        }
                        self.j.r("]");
                    }
                    AggregateKind::Closure(d, _) => {
                        self.j.r("[\"closure\",");
                        let s = path(self.tcx, *d);
                        self.j.s(&s);
                        self.j.r("]");
                    }
                    _ => self.j.r("[\"otheragg\"]"),
                }
                self.j.r(",[");
                let mut first = true;
                for o in ops.iter() {
                    if !first {
                        self.j.r(",")
                    }
                    first = false;
                    self.operand(o);
                }
                self.j.r("]]");
            }
            Rvalue::CopyForDeref(p) => {
                self.j.r("[\"use\",[\"c\",");
                self.place(p);
                self.j.r("]]");
            }
            Rvalue::Reborrow(_, _, p) => {
                self.j.r("[\"use\",[\"c\",");
                self.place(p);
                self.j.r("]]");
            }
            Rvalue::Repeat(o, c) => {
                self.j.r("[\"repeat\",");
                self.operand(o);
                self.j.r(",");
                self.j.s(&format!("{}", c));
                self.j.r("]");
            }
            other => {
                self.j.r("[\"other\",");
                self.j.s(&format!("{:?}", other));
                self.j.r("]");
            }
        }
    }

    fn loc(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        (f, l.line)
    }

    fn dump(&mut self, def: LocalDefId) {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let body = self.body;
        self.j.r("{\"key\":");
        self.j.s(&path(tcx, did));
        self.j.r(",\"kind\":");
        self.j.s(&format!("{:?}", tcx.def_kind(did)));
        let (f, l) = self.loc(tcx.def_span(did));
        self.j.r(",\"file\":");
        self.j.s(&f);
        self.j.r(&format!(",\"line\":{}", l));
        self.j.r(&format!(",\"argc\":{},\"locals\":[", body.arg_count));
        let mut first = true;
        for d in body.local_decls.iter() {
            if !first {
                self.j.r(",")
            }
            first = false;
            let s = tystr(d.ty);
            self.j.s(&s);
        }
        self.j.r("],\"names\":{");
        let mut seen = std::collections::HashSet::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() && seen.insert(p.local) {
                    if seen.len() > 1 {
                        self.j.r(",");
                    }
                    self.j.s(&p.local.as_u32().to_string());
                    self.j.r(":");
                    self.j.s(&v.name.to_string());
                }
            }
        }
        self.j.r("},\"upvars\":[");
        if tcx.is_closure_like(did) {
            let mut first = true;
            for c in tcx.closure_captures(def) {
                if !first {
                    self.j.r(",")
                }
                first = false;
                self.j.r("[");
                self.j.s(&c.to_symbol().to_string());
                self.j.r(if c.is_by_ref() { ",1]" } else { ",0]" });
            }
        }
        self.j.r("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 {
                self.j.r(",")
            }
            if bb.is_cleanup {
                self.j.r("null");
                continue;
            }
            self.j.r("[[");
            let mut first = true;
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        if !first {
                            self.j.r(",")
                        }
                        first = false;
                        let (_, l) = self.loc(st.source_info.span);
                        self.j.r(&format!("[{},", l));
                        self.place(&b.0);
                        self.j.r(",");
                        self.rvalue(&b.1);
                        self.j.r("]");
                    }
                    StatementKind::SetDiscriminant { .. } => {
                        if !first {
                            self.j.r(",")
                        }
                        first = false;
                        self.j.r("[\"setdisc\"]");
                    }
                    _ => {}
                }
            }
            self.j.r("],");
            let term = bb.terminator();
            let (_, l) = self.loc(term.source_info.span);
            match &term.kind {
                TerminatorKind::Goto { target, .. } => self.j.r(&format!("[\"goto\",{}]", target.as_u32())),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    self.j.r(&format!("[\"goto\",{}]", real_target.as_u32()))
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    self.j.r(&format!("[\"goto\",{}]", real_target.as_u32()))
                }
                TerminatorKind::Drop { target, .. } => self.j.r(&format!("[\"goto\",{}]", target.as_u32())),
                TerminatorKind::SwitchInt { discr, targets } => {
                    self.j.r(&format!("[\"switch\",{},", l));
                    self.operand(discr);
                    self.j.r(",");
                    let t = discr.ty(self.body, tcx);
                    let s = tystr(t);
                    self.j.s(&s);
                    self.j.r(",[");
                    let mut first = true;
                    for (v, t) in targets.iter() {
                        if !first {
                            self.j.r(",")
                        }
                        first = false;
                        self.j.r(&format!("[{},{}]", v, t.as_u32()));
                    }
                    self.j.r(&format!("],{}]", targets.otherwise().as_u32()));
                }
                TerminatorKind::Return => self.j.r("[\"ret\"]"),
                TerminatorKind::Unreachable => self.j.r("[\"unreach\"]"),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    self.j.r(&format!("[\"call\",{},", l));
                    self.operand(func);
                    self.j.r(",[");
                    let mut first = true;
                    for a in args.iter() {
                        if !first {
                            self.j.r(",")
                        }
                        first = false;
                        self.operand(&a.node);
                    }
                    self.j.r("],");
                    self.place(destination);
                    match target {
                        Some(t) => self.j.r(&format!(",{}]", t.as_u32())),
                        None => self.j.r(",null]"),
                    }
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    self.j.r(&format!("[\"assert\",{},", l));
                    self.operand(cond);
                    self.j.r(&format!(",{},{},", expected, target.as_u32()));
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::DivisionByZero(_) => "div0",
                        AssertKind::RemainderByZero(_) => "rem0",
                        _ => "other",
                    };
                    self.j.s(m);
                    self.j.r("]");
                }
                TerminatorKind::UnwindResume => self.j.r("[\"unreach\"]"),
                _ => self.j.r("[\"otherterm\"]"),
            }
            self.j.r("]");
        }
        self.j.r("]}");
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_built);
            p.queries.mir_built = my_built;
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let bodies = BODIES.with(|v| std::mem::take(&mut *v.borrow_mut()));
        let mut out = J(String::new());
        out.r("{\"bodies\":[\n");
        let mut first = true;
        for (def, b) in bodies.iter() {
            let b: &Body<'tcx> = unsafe { std::mem::transmute(b) };
            if !first {
                out.r(",\n");
            }
            first = false;
            let tenv = TypingEnv::post_analysis(tcx, def.to_def_id());
            let mut cx = Cx { tcx, body: b, tenv, j: J(String::new()) };
            cx.dump(*def);
            out.r(&cx.j.0);
        }
        out.r("],\n\"adts\":[\n");
        let mut first = true;
        let mut dump_adt = |did: DefId, out: &mut J, first: &mut bool| {
            let adt = tcx.adt_def(did);
            if !*first {
                out.r(",\n");
            }
            *first = false;
            out.r("{\"path\":");
            out.s(&path(tcx, did));
            out.r(",\"kind\":");
            out.s(if adt.is_enum() { "enum" } else if adt.is_struct() { "struct" } else { "union" });
            out.r(",\"variants\":[");
            let mut f2 = true;
            for (vi, v) in adt.variants().iter_enumerated() {
                if !f2 {
                    out.r(",")
                }
                f2 = false;
                let d = if adt.is_enum() { adt.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                out.r("{\"name\":");
                out.s(&v.name.to_string());
                out.r(&format!(",\"discr\":{},\"fields\":[", d));
                let mut f3 = true;
                for f in v.fields.iter() {
                    if !f3 {
                        out.r(",")
                    }
                    f3 = false;
                    out.r("[");
                    out.s(&f.name.to_string());
                    out.r(",");
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    out.s(&tystr(t));
                    out.r("]");
                }
                out.r("]}");
            }
            out.r("]}");
        };
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                dump_adt(id.to_def_id(), &mut out, &mut first);
            }
        }
        // foreign enums the analyses need to know the variants of
        for lang in [tcx.lang_items().option_type(), tcx.lang_items().ordering_enum()] {
            if let Some(d) = lang {
                dump_adt(d, &mut out, &mut first);
            }
        }
        let mut done: std::collections::HashSet<DefId> = std::collections::HashSet::new();
        for (_, b) in bodies.iter() {
            let b: &Body<'tcx> = unsafe { std::mem::transmute(b) };
            for l in b.local_decls.iter() {
                for t in l.ty.walk() {
                    if let Some(t) = t.as_type() {
                        if let ty::Adt(d, _) = t.kind() {
                            if d.is_enum() && !d.did().is_local() && done.insert(d.did()) {
                                dump_adt(d.did(), &mut out, &mut first);
                            }
                        }
                    }
                }
            }
        }
        out.r("],\n\"impls\":[\n");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
                if !first {
                    out.r(",\n");
                }
                first = false;
                out.r("{\"self\":");
                out.s(&tystr(tcx.type_of(id).instantiate_identity().skip_norm_wip()));
                out.r(",\"trait\":");
                if of_trait {
                    let tr = tcx.impl_trait_ref(id).skip_binder();
                    out.s(&path(tcx, tr.def_id));
                } else {
                    out.r("null");
                }
                out.r(&format!(",\"auto\":{},\"items\":[", tcx.is_automatically_derived(id.to_def_id())));
                let mut f2 = true;
                for it in tcx.associated_item_def_ids(id) {
                    if !f2 {
                        out.r(",")
                    }
                    f2 = false;
                    out.s(&path(tcx, *it));
                }
                out.r("]}");
            }
        }
        out.r("]}\n");
        std::fs::write(&self.out, out.0).unwrap();
        rustc_driver::Compilation::Continue
    }
}

struct NoCb;
impl rustc_driver::Callbacks for NoCb {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned());
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    rustc_driver::catch_with_exit_code(move || {
        if krate.as_deref() == Some(want.as_str()) && !out.is_empty() {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut NoCb);
        }
    })
}
