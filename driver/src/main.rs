//! rustc driver used as RUSTC_WORKSPACE_WRAPPER: compiles like rustc, and for the
//! crate named in OSU_FACTS_CRATE writes the monomorphised, type-resolved MIR (with
//! evaluated constants and resolved callees) as JSON to OSU_FACTS_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{rustc_internal, CrateDef, CrateDefType, CrateItem, DefId};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    local: String,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    ty_queue: Vec<(Ty, usize)>,
    insts: HashMap<Instance, usize>,
    inst_out: Vec<String>,
    queue: Vec<(Instance, usize)>,
    expand: Vec<String>,
    noexpand: Vec<String>,
    adt_inst: HashSet<Ty>,
    const_depth: usize,
}

impl<'tcx> Ctx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        self.ty_queue.push((t, i));
        i
    }

    fn drain_tys(&mut self) {
        while let Some((t, i)) = self.ty_queue.pop() {
            let s = self.ty_json(t);
            self.ty_out[i] = s;
        }
    }

    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => {
                    let i = self.ty(*t);
                    v.push(i.to_string());
                }
                GenericArgKind::Const(c) => v.push(esc(&format!(
                    "const {}",
                    c.eval_target_usize().map(|x| x.to_string()).unwrap_or("?".into())
                ))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        list(v)
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let text = esc(&format!("{}", t));
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!(
                    "\"k\":\"int\",\"signed\":true,\"bits\":{},\"sz\":{}",
                    i.num_bytes() * 8,
                    matches!(i, IntTy::Isize)
                ),
                RigidTy::Uint(i) => format!(
                    "\"k\":\"int\",\"signed\":false,\"bits\":{},\"sz\":{}",
                    i.num_bytes() * 8,
                    matches!(i, UintTy::Usize)
                ),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Adt(def, args) => {
                    let a = self.gargs(&args);
                    let name = def.name();
                    let local = self.is_local(def.def_id());
                    if local && !args.0.is_empty() {
                        self.adt_inst.insert(t);
                    }
                    let mut vs = vec![];
                    let kind = def.kind();
                    for v in def.variants() {
                        let discr = if kind == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        let idef = rustc_internal::internal(self.tcx, def.def_id());
                        let iv = &self.tcx.adt_def(idef);
                        let iv = &iv.variants()[rustc_internal::internal(self.tcx, v.idx())];
                        let mut fs = vec![];
                        for (fi, f) in v.fields().into_iter().enumerate() {
                            let ft = f.ty_with_args(&args);
                            let fti = self.ty(ft);
                            let ifd = &iv.fields[rustc_hir_idx(fi)];
                            let vis = if ifd.vis.is_public() { 1 } else { 0 };
                            fs.push(format!("[{},{},{}]", esc(&f.name.to_string()), fti, vis));
                        }
                        vs.push(format!(
                            "{{\"n\":{},\"d\":\"{}\",\"f\":{}}}",
                            esc(&v.name().to_string()),
                            discr,
                            list(fs)
                        ));
                    }
                    let idef = rustc_internal::internal(self.tcx, def.def_id());
                    let vis = self.tcx.visibility(idef).is_public();
                    format!(
                        "\"k\":\"adt\",\"name\":{},\"args\":{},\"kind\":\"{}\",\"local\":{},\"pub\":{},\"variants\":{}",
                        esc(&name),
                        a,
                        match kind {
                            AdtKind::Enum => "enum",
                            AdtKind::Struct => "struct",
                            AdtKind::Union => "union",
                        },
                        local,
                        vis,
                        list(vs)
                    )
                }
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    format!(
                        "\"k\":\"array\",\"e\":{},\"n\":{}",
                        e,
                        n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                    )
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    format!("\"k\":\"slice\",\"e\":{}", e)
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m == Mutability::Mut)
                }
                RigidTy::FnDef(def, args) => {
                    let mut inst = "null".to_string();
                    if let Ok(i) = Instance::resolve(def, &args) {
                        inst = self.inst(i).to_string();
                    }
                    let a = self.gargs(&args);
                    format!(
                        "\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{}",
                        esc(&def.name()),
                        a,
                        inst
                    )
                }
                RigidTy::FnPtr(sig) => {
                    let sig = sig.skip_binder();
                    let o = self.ty(sig.output());
                    format!("\"k\":\"fnptr\",\"out\":{}", o)
                }
                RigidTy::Closure(def, args) => {
                    // the closure's body instance (call operator by natural kind)
                    let mut inst = "null".to_string();
                    if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::FnMut) {
                        inst = self.inst(i).to_string();
                    }
                    // upvars: last generic arg is the tuple of upvar types
                    let up = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                        _ => "null".into(),
                    };
                    format!(
                        "\"k\":\"closure\",\"name\":{},\"inst\":{},\"up\":{}",
                        esc(&def.name()),
                        inst,
                        up
                    )
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"e\":{}", list(v))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                _ => "\"k\":\"other\"".into(),
            },
            TyKind::Alias(..) => "\"k\":\"alias\"".into(),
            TyKind::Param(_) => "\"k\":\"param\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{\"t\":{},{}}}", text, k)
    }

    fn is_local(&self, d: DefId) -> bool {
        rustc_internal::internal(self.tcx, d).is_local()
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.inst_out.push(String::new());
        self.queue.push((i, n));
        n
    }

    fn wants_body(&self, i: &Instance, path: &str) -> bool {
        if i.kind == InstanceKind::Intrinsic || i.kind == InstanceKind::LlvmIntrinsic {
            return false;
        }
        if let InstanceKind::Virtual { .. } = i.kind {
            return false;
        }
        let d = i.def.def_id();
        if self.is_local(d) {
            return true;
        }
        if i.kind == InstanceKind::Shim {
            // FnOnce shims etc. of local closures and fn items
            return !i.name().contains("drop_in_place") && !i.name().contains("drop_glue");
        }
        if self.noexpand.iter().any(|p| path.contains(p.as_str())) {
            return false;
        }
        if self.tcx.is_foreign_item(rustc_internal::internal(self.tcx, d)) {
            return false;
        }
        self.expand.iter().any(|p| path.contains(p.as_str()))
    }

    fn span(&self, sp: Span) -> String {
        // position in the file that expanded the outermost macro
        let isp = rustc_internal::internal(self.tcx, sp).source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(isp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", name, lo.line)
    }

    fn process(&mut self, i: Instance, n: usize) {
        let d = i.def.def_id();
        let path = d.name();
        let name = i.name();
        let local = self.is_local(d);
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => format!("intrinsic:{}", i.intrinsic_name().unwrap_or_default()),
            InstanceKind::LlvmIntrinsic => "llvm".into(),
            InstanceKind::Virtual { .. } => "virtual".into(),
            InstanceKind::Shim => "shim".into(),
        };
        let args = {
            let a = i.args();
            self.gargs(&a)
        };
        let idef = rustc_internal::internal(self.tcx, d);
        let dp = self.tcx.def_path_str(idef);
        let mut extra = String::new();
        if let Some(p) = self.tcx.opt_parent(idef) {
            if matches!(self.tcx.def_kind(p), rustc_hir::def::DefKind::Impl { .. }) {
                if let Some(tr) = self.tcx.impl_opt_trait_ref(p) {
                    let tr = tr.skip_binder();
                    let _ = write!(
                        extra,
                        ",\"trait\":{}",
                        esc(&self.tcx.def_path_str(tr.def_id))
                    );
                    let derived = self.tcx.is_automatically_derived(p);
                    let _ = write!(extra, ",\"derived\":{}", derived);
                }
            } else if matches!(self.tcx.def_kind(p), rustc_hir::def::DefKind::Trait) {
                let _ = write!(extra, ",\"intrait\":{}", esc(&self.tcx.def_path_str(p)));
            }
        }
        if local {
            let dk = self.tcx.def_kind(idef);
            let _ = write!(extra, ",\"dk\":{}", esc(&format!("{:?}", dk)));
            if !matches!(dk, rustc_hir::def::DefKind::Closure) {
                let ev = self.tcx.effective_visibilities(());
                if let Some(ld) = idef.as_local() {
                    let _ = write!(extra, ",\"reach\":{}", ev.is_reachable(ld));
                }
            }
            let _ = write!(extra, ",\"span\":{}", esc(&self.span(d.span())));
        }
        let dpath = esc(&self.tcx.def_path_debug_str(idef));
        let mut body_s = "null".to_string();
        if self.wants_body(&i, &path) {
            if let Some(b) = i.body() {
                body_s = self.body(&b, local);
            }
        }
        self.inst_out[n] = format!(
            "{{\"id\":{},\"path\":{},\"name\":{},\"dp\":{},\"dbg\":{},\"kind\":{},\"local\":{},\"args\":{}{},\"body\":{}}}",
            n,
            esc(&path),
            esc(&name),
            esc(&dp),
            dpath,
            esc(&kind),
            local,
            args,
            extra,
            body_s
        );
    }

    fn body(&mut self, b: &Body, local: bool) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    dbg.push(format!("[{},{}]", p.local, esc(&v.name.to_string())));
                }
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r, b);
                        st.push(format!("[{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[{},[\"setdiscr\",{}]]", p, variant_index.to_index()));
                    }
                    _ => {}
                }
            }
            let t = self.term(&bb.terminator, b);
            let sp = if local {
                esc(&self.span(bb.terminator.source_info.span))
            } else {
                "\"\"".into()
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{}}}", list(st), t, sp));
        }
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"dbg\":{},\"blocks\":{}}}",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            list(locals),
            list(dbg),
            list(blocks)
        )
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    format!("[\"f\",{},{}]", i, t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
            });
        }
        list(v)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = self.konst(&c.const_);
                format!("[\"k\",{},{}]", t, v)
            }
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        match c.kind() {
            ConstantKind::ZeroSized => self.zst(c.ty()),
            ConstantKind::Allocated(a) => {
                self.const_depth = 0;
                self.val(c.ty(), a, 0)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => {
                    self.const_depth = 0;
                    self.val(*t, a, 0)
                }
                _ => "{\"o\":\"tyconst\"}".into(),
            },
            _ => "{\"o\":\"uneval\"}".into(),
        }
    }

    fn zst(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(def, args)) => {
                let mut fs = vec![];
                if def.kind() == AdtKind::Struct {
                    let v = def.variants()[0];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        fs.push(self.zst(ft));
                    }
                    return format!("{{\"v\":0,\"f\":{}}}", list(fs));
                }
                if def.kind() == AdtKind::Enum && def.variants().len() == 1 {
                    return "{\"v\":0,\"f\":[]}".into();
                }
                "{\"z\":1}".into()
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let v: Vec<String> = ts.iter().map(|t| self.zst(*t)).collect();
                format!("{{\"a\":{}}}", list(v))
            }
            TyKind::RigidTy(RigidTy::Array(..)) => "{\"a\":[]}".into(),
            _ => "{\"z\":1}".into(),
        }
    }

    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if off + n > a.bytes.len() || n > 16 {
            return None;
        }
        let mut v: u128 = 0;
        for k in 0..n {
            v |= (a.bytes[off + k]? as u128) << (8 * k);
        }
        Some(v)
    }

    fn val(&mut self, t: Ty, a: &Allocation, off: usize) -> String {
        self.const_depth += 1;
        if self.const_depth > 4000 {
            return "{\"o\":\"deep\"}".into();
        }
        let Ok(layout) = t.layout() else { return "{\"o\":\"layout\"}".into() };
        let shape = layout.shape();
        if shape.is_sized() && shape.size.bytes() == 0 {
            return self.zst(t);
        }
        let r = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return "{\"o\":\"kind\"}".into(),
        };
        match r {
            RigidTy::Bool => match Self::uint(a, off, 1) {
                Some(x) => format!("{{\"b\":{}}}", x != 0),
                None => "{\"o\":\"uninit\"}".into(),
            },
            RigidTy::Char => match Self::uint(a, off, 4) {
                Some(x) => format!("{{\"c\":{}}}", x),
                None => "{\"o\":\"uninit\"}".into(),
            },
            RigidTy::Uint(u) => match Self::uint(a, off, u.num_bytes()) {
                Some(x) => format!("{{\"i\":\"{}\"}}", x),
                None => "{\"o\":\"uninit\"}".into(),
            },
            RigidTy::Int(u) => match Self::uint(a, off, u.num_bytes()) {
                Some(x) => {
                    let b = u.num_bytes() * 8;
                    let s = if b == 128 {
                        x as i128
                    } else if x >> (b - 1) & 1 == 1 {
                        x as i128 - (1i128 << b)
                    } else {
                        x as i128
                    };
                    format!("{{\"i\":\"{}\"}}", s)
                }
                None => "{\"o\":\"uninit\"}".into(),
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let pw = 8;
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1);
                let addr = Self::uint(a, off, pw).unwrap_or(0) as usize;
                let Some(p) = prov else {
                    // dangling pointer: empty slice / str or zst
                    let meta = Self::uint(a, off + pw, pw);
                    return match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) if meta == Some(0) => "{\"s\":\"\"}".into(),
                        TyKind::RigidTy(RigidTy::Slice(_)) if meta == Some(0) => {
                            "{\"r\":{\"a\":[]}}".into()
                        }
                        _ => {
                            if e.layout().map(|l| l.shape().size.bytes() == 0).unwrap_or(false) {
                                format!("{{\"r\":{}}}", self.zst(e))
                            } else {
                                "{\"o\":\"dangling\"}".into()
                            }
                        }
                    };
                };
                match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = Self::uint(a, off + pw, pw).unwrap_or(0) as usize;
                            let bytes: Vec<u8> =
                                m.bytes[addr..addr + n].iter().map(|b| b.unwrap_or(0)).collect();
                            match String::from_utf8(bytes) {
                                Ok(s) => format!("{{\"s\":{}}}", esc(&s)),
                                Err(_) => "{\"o\":\"utf8\"}".into(),
                            }
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = Self::uint(a, off + pw, pw).unwrap_or(0) as usize;
                            let st = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let v: Vec<String> =
                                (0..n).map(|k| self.val(el, &m, addr + k * st)).collect();
                            format!("{{\"r\":{{\"a\":{}}}}}", list(v))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => "{\"o\":\"dyn\"}".into(),
                        _ => {
                            let v = self.val(e, &m, addr);
                            format!("{{\"r\":{}}}", v)
                        }
                    },
                    GlobalAlloc::Function(i) => {
                        let n = self.inst(i);
                        format!("{{\"fn\":{}}}", n)
                    }
                    GlobalAlloc::Static(s) => {
                        format!("{{\"static\":{}}}", esc(&s.name()))
                    }
                    _ => "{\"o\":\"alloc\"}".into(),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1);
                if let Some(p) = prov {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        let n = self.inst(i);
                        return format!("{{\"fn\":{}}}", n);
                    }
                }
                "{\"o\":\"fnptr\"}".into()
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                    return "{\"o\":\"shape\"}".into();
                };
                let v: Vec<String> = ts
                    .iter()
                    .enumerate()
                    .map(|(k, t)| self.val(*t, a, off + offsets[k].bytes()))
                    .collect();
                format!("{{\"a\":{}}}", list(v))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let st = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v: Vec<String> = (0..n).map(|k| self.val(e, a, off + k * st)).collect();
                format!("{{\"a\":{}}}", list(v))
            }
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union {
                    return "{\"o\":\"union\"}".into();
                }
                let (vi, offsets): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return "{\"o\":\"empty\"}".into(),
                    VariantsShape::Single { index } => {
                        let o = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                            FieldsShape::Primitive => vec![],
                            _ => return "{\"o\":\"shape\"}".into(),
                        };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let sz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => value,
                            rustc_public::abi::Scalar::Union { value } => value,
                        }
                        .size(&rustc_public::target::MachineInfo::target())
                        .bytes();
                        let isptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let Some(tv) = Self::uint(a, off + toff, sz) else {
                            return "{\"o\":\"tag\"}".into();
                        };
                        let mask: u128 = if sz == 16 { u128::MAX } else { (1 << (8 * sz)) - 1 };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut f = None;
                                for v in def.variants() {
                                    let d = def.discriminant_for_variant(v.idx()).val & mask;
                                    if d == tv {
                                        f = Some(v.idx().to_index());
                                    }
                                }
                                match f {
                                    Some(x) => x,
                                    None => return "{\"o\":\"tagval\"}".into(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = tv.wrapping_sub(*niche_start) & mask;
                                let cnt = (niche_variants.end().to_index()
                                    - niche_variants.start().to_index())
                                    as u128;
                                if !isptr && rel <= cnt {
                                    niche_variants.start().to_index() + rel as usize
                                } else {
                                    untagged_variant.to_index()
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let v = def.variants()[vi];
                let fs: Vec<String> = v
                    .fields()
                    .iter()
                    .enumerate()
                    .map(|(k, f)| {
                        let ft = f.ty_with_args(&args);
                        let o = offsets.get(k).copied().unwrap_or(0);
                        self.val(ft, a, off + o)
                    })
                    .collect();
                format!("{{\"v\":{},\"f\":{}}}", vi, list(fs))
            }
            _ => "{\"o\":\"other\"}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, b: &Body) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p))
            }
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x)).collect();
                let t = r.ty(b.locals()).ok();
                let ti = match t {
                    Some(t) => self.ty(t).to_string(),
                    None => "null".into(),
                };
                let ks = match k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(_, v, _, _, act) => format!(
                        "[\"adt\",{},{}]",
                        v.to_index(),
                        act.map(|x| x.to_string()).unwrap_or("null".into())
                    ),
                    AggregateKind::Closure(..) => "[\"closure\"]".into(),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{},{}]", ks, ti, list(o))
            }
            Rvalue::BinaryOp(op, x, y) => {
                let t = x.ty(b.locals()).ok();
                let ti = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!(
                    "[\"bin\",\"{:?}\",{},{},{}]",
                    op,
                    self.operand(x),
                    self.operand(y),
                    ti
                )
            }
            Rvalue::CheckedBinaryOp(op, x, y) => {
                let t = x.ty(b.locals()).ok();
                let ti = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!(
                    "[\"cbin\",\"{:?}\",{},{},{}]",
                    op,
                    self.operand(x),
                    self.operand(y),
                    ti
                )
            }
            Rvalue::UnaryOp(op, x) => {
                let t = x.ty(b.locals()).ok();
                let ti = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(x), ti)
            }
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let ft = o.ty(b.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let ks = match k {
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => "reify".to_string(),
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => "closurefn".into(),
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => "unsize".into(),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{},{}]", esc(&ks), self.operand(o), ti, ft)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }

    fn term(&mut self, t: &Terminator, b: &Body) -> String {
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<String> =
                    targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                let ty = discr.ty(b.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!(
                    "[\"switch\",{},{},{},{}]",
                    self.operand(discr),
                    list(v),
                    targets.otherwise(),
                    ty
                )
            }
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (m, ops): (String, Vec<String>) = match msg {
                    AssertMessage::BoundsCheck { len, index } => (
                        "bounds".into(),
                        vec![self.operand(len), self.operand(index)],
                    ),
                    AssertMessage::Overflow(op, x, y) => {
                        (format!("overflow:{:?}", op), vec![self.operand(x), self.operand(y)])
                    }
                    AssertMessage::OverflowNeg(x) => ("overflow:neg".into(), vec![self.operand(x)]),
                    AssertMessage::DivisionByZero(x) => ("divzero".into(), vec![self.operand(x)]),
                    AssertMessage::RemainderByZero(x) => ("remzero".into(), vec![self.operand(x)]),
                    _ => ("other".into(), vec![]),
                };
                format!(
                    "[\"assert\",{},{},{},{},{}]",
                    self.operand(cond),
                    expected,
                    esc(&m),
                    list(ops),
                    target
                )
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func {
                    Operand::Constant(c) => {
                        let ti = self.ty(c.const_.ty());
                        format!("[\"fn\",{}]", ti)
                    }
                    o => format!("[\"op\",{}]", self.operand(o)),
                };
                let a: Vec<String> = args.iter().map(|x| self.operand(x)).collect();
                format!(
                    "[\"call\",{},{},{},{}]",
                    f,
                    list(a),
                    self.place(destination),
                    target.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        }
    }
}

fn rustc_hir_idx(i: usize) -> rustc_abi_fieldidx::FieldIdx {
    rustc_abi_fieldidx::FieldIdx::from_usize(i)
}

extern crate rustc_abi;
mod rustc_abi_fieldidx {
    pub use rustc_abi::FieldIdx;
}

fn dump(tcx: TyCtxt<'_>) {
    let out = std::env::var("OSU_FACTS_OUT").expect("OSU_FACTS_OUT");
    let conf = std::env::var("OSU_FACTS_EXPAND").unwrap_or_default();
    let nconf = std::env::var("OSU_FACTS_NOEXPAND").unwrap_or_default();
    let mut cx = Ctx {
        tcx,
        local: rustc_public::local_crate().name.to_string(),
        tys: HashMap::new(),
        ty_out: vec![],
        ty_queue: vec![],
        insts: HashMap::new(),
        inst_out: vec![],
        queue: vec![],
        expand: conf.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        noexpand: nconf.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        adt_inst: HashSet::new(),
        const_depth: 0,
    };
    let mut generic_items: Vec<CrateItem> = vec![];
    let mut roots = vec![];
    let mut statics = vec![];
    for item in rustc_public::all_local_items() {
        use rustc_public::ItemKind;
        match item.kind() {
            ItemKind::Fn => {
                if item.requires_monomorphization() {
                    generic_items.push(item);
                } else if let Ok(i) = Instance::try_from(item) {
                    roots.push(cx.inst(i));
                }
            }
            ItemKind::Static => {
                let d = rustc_internal::internal(tcx, item.def_id());
                let ty = tcx.type_of(d).skip_binder();
                let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                statics.push(format!(
                    "{{\"name\":{},\"ty\":{},\"mut\":{},\"interior\":{},\"tls\":{}}}",
                    esc(&item.name()),
                    esc(&format!("{}", ty)),
                    tcx.is_mutable_static(d),
                    !ty.is_freeze(tcx, env),
                    tcx.is_thread_local_static(d)
                ));
            }
            _ => {}
        }
    }
    // local ADTs: make sure every non-generic local type is in the table
    for a in rustc_public::local_crate().adts() {
        let d = rustc_internal::internal(tcx, a.def_id());
        if !tcx.generics_of(d).requires_monomorphization(tcx) {
            let t = a.ty();
            cx.ty(t);
        }
    }
    // public functions with type parameters that a text satisfies (AsRef<str>, AsRef<Path>, ..)
    for item in &generic_items {
        let idef = rustc_internal::internal(tcx, item.def_id());
        if !tcx.visibility(idef).is_public() || tcx.is_closure_like(idef) {
            continue;
        }
        if let Some(p) = tcx.opt_parent(idef) {
            if let rustc_hir::def::DefKind::Impl { .. } = tcx.def_kind(p) {
                use rustc_middle::ty::TypeVisitableExt;
                if tcx.type_of(p).skip_binder().has_param() {
                    continue;
                }
            } else if matches!(tcx.def_kind(p), rustc_hir::def::DefKind::Trait) {
                continue;
            }
        }
        let mut konst = false;
        let text = rustc_middle::ty::Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, tcx.types.str_);
        let args = rustc_middle::ty::GenericArgs::for_item(tcx, idef, |p, _| match p.kind {
            rustc_middle::ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            rustc_middle::ty::GenericParamDefKind::Type { .. } => text.into(),
            _ => {
                konst = true;
                text.into()
            }
        });
        if konst || tcx.instantiate_and_check_impossible_clauses((idef, args)) {
            continue;
        }
        let fty = rustc_internal::stable(rustc_middle::ty::Ty::new_fn_def(tcx, idef, rustc_middle::ty::Binder::dummy(args)));
        if let TyKind::RigidTy(RigidTy::FnDef(fd, fargs)) = fty.kind() {
            if let Ok(i) = Instance::resolve(fd, &fargs) {
                roots.push(cx.inst(i));
            }
        }
    }
    let mut done: HashSet<(DefId, Ty)> = HashSet::new();
    loop {
        cx.drain_tys();
        if let Some((i, n)) = cx.queue.pop() {
            cx.process(i, n);
            continue;
        }
        // instantiate methods of generic local ADTs at every instantiation seen
        let mut more = false;
        let insts: Vec<Ty> = cx.adt_inst.iter().copied().collect();
        for t in insts {
            if let TyKind::RigidTy(RigidTy::Adt(def, args)) = t.kind() {
                for item in &generic_items {
                    let id = item.def_id();
                    if done.contains(&(id, t)) {
                        continue;
                    }
                    let idef = rustc_internal::internal(tcx, id);
                    let Some(p) = tcx.opt_parent(idef) else { continue };
                    if !matches!(tcx.def_kind(p), rustc_hir::def::DefKind::Impl { .. }) {
                        continue;
                    }
                    let own = tcx.generics_of(idef);
                    if own.own_params.iter().any(|p| {
                        !matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime)
                    }) {
                        continue;
                    }
                    let st = tcx.type_of(p).skip_binder();
                    let rustc_middle::ty::TyKind::Adt(ad, _) = st.kind() else { continue };
                    if ad.did() != rustc_internal::internal(tcx, def.def_id()) {
                        continue;
                    }
                    done.insert((id, t));
                    if let TyKind::RigidTy(RigidTy::FnDef(fd, _)) = item.ty().kind() {
                        if let Ok(i) = Instance::resolve(fd, &args) {
                            roots.push(cx.inst(i));
                            more = true;
                        }
                    }
                }
            }
        }
        if !more && cx.queue.is_empty() && cx.ty_queue.is_empty() {
            break;
        }
    }
    let mut gens = vec![];
    for item in &generic_items {
        gens.push(esc(&item.name()));
    }
    // impls of traits for local types
    let mut impls = vec![];
    for im in rustc_public::local_crate().trait_impls() {
        let d = rustc_internal::internal(tcx, im.def_id());
        let tr = tcx.impl_opt_trait_ref(d).map(|t| tcx.def_path_str(t.skip_binder().def_id)).unwrap_or_default();
        let st = format!("{}", tcx.type_of(d).skip_binder());
        let derived = tcx.is_automatically_derived(d);
        impls.push(format!("[{},{},{}]", esc(&tr), esc(&st), derived));
    }
    let roots_s: Vec<String> = roots.iter().map(|x| x.to_string()).collect();
    let s = format!(
        "{{\"crate\":{},\"types\":[\n{}\n],\"fns\":[\n{}\n],\"roots\":{},\"generic\":{},\"impls\":{},\"statics\":{}}}\n",
        esc(&cx.local),
        cx.ty_out.join(",\n"),
        cx.inst_out.join(",\n"),
        list(roots_s),
        list(gens),
        list(impls),
        list(statics)
    );
    std::fs::write(&out, s).expect("write facts");
}

struct Cb {
    dump: bool,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if self.dump {
            rustc_internal::run(tcx, || dump(tcx)).expect("rustc_public run");
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("OSU_FACTS_CRATE").unwrap_or_default();
    let mut name = String::new();
    let mut ctype = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
        if w[0] == "--crate-type" {
            ctype = w[1].clone();
        }
    }
    let dump = name == want && ctype == "lib" && !args.iter().any(|a| a == "--test");
    if dump {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Zalways-encode-mir".into());
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        let mut cb = Cb { dump };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
