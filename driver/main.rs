// Fact extractor: a rustc driver that dumps the resolved program (pre-coroutine-transform MIR with
// resolved callees, constants and field names) of the crate being compiled as JSON.
// It decides nothing: all rules live in /verif/sa (Python).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_data_structures::steal::Steal;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

type MirBuiltFn = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIG: std::sync::OnceLock<MirBuiltFn> = std::sync::OnceLock::new();
thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, def);
    let b: Body<'tcx> = r.borrow().clone();
    // the bodies are only used while the same TyCtxt is alive
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|m| m.borrow_mut().insert(def, b));
    r
}

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    ids: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    out: BTreeMap<usize, String>,
    adts: BTreeMap<String, String>,
    tys: HashMap<String, usize>,
    tylist: Vec<String>,
    generic: bool,
}

const EXT_ALLOW: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::",
    "core::convert::",
    "core::bool::",
    "core::task::",
    "core::cmp::",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let s = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
        if s.len() > 600 {
            let mut n = 600;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s[..n].to_string()
        } else {
            s
        }
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let s = self.tystr(t);
        if let Some(i) = self.tys.get(&s) {
            return *i;
        }
        self.trait_methods(t);
        let i = self.tylist.len();
        self.tys.insert(s.clone(), i);
        self.tylist.push(s);
        i
    }
    /// a generic local type with concrete arguments: its local trait implementations may be reached through trait objects
    fn trait_methods(&mut self, t: Ty<'tcx>) {
        let tcx = self.tcx;
        let ty::Adt(ad, args) = t.kind() else { return };
        if !ad.did().is_local() || args.types().next().is_none() || ty::Flags::flags(&t).intersects(ty::TypeFlags::HAS_PARAM) {
            return;
        }
        for (_, impls) in tcx.all_local_trait_impls(()).iter() {
            for imp in impls {
                let imp = imp.to_def_id();
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let ty::Adt(ad2, args2) = st.kind() else { continue };
                let g = tcx.generics_of(imp);
                if ad2.did() != ad.did() || g.count() != args.len() {
                    continue;
                }
                let same = args2.iter().enumerate().all(|(k, a)| match a.kind() {
                    ty::GenericArgKind::Type(x) => matches!(x.kind(), ty::Param(p) if p.index as usize == k),
                    _ => true,
                });
                if !same {
                    continue;
                }
                for it in tcx.associated_items(imp).in_definition_order() {
                    if !matches!(it.kind, ty::AssocKind::Fn { .. }) || tcx.generics_of(it.def_id).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                        continue;
                    }
                    let fa = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => args[p.index as usize],
                    });
                    let _ = self.inst(Instance::new_raw(it.def_id, fa));
                }
            }
        }
    }
    fn span(&self, sp: rustc_span::Span) -> (String, usize, String) {
        let mac = if sp.from_expansion() {
            let mut last = String::new();
            for e in sp.macro_backtrace() {
                if let rustc_span::ExpnKind::Macro(_, n) = e.kind {
                    last = n.to_string();
                }
            }
            last
        } else {
            String::new()
        };
        let cs = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(cs.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        (f, loc.line, mac)
    }
    fn inst(&mut self, i: Instance<'tcx>) -> Option<usize> {
        if let Some(x) = self.ids.get(&i) {
            return Some(*x);
        }
        // inside a function which is dumped with its parameters: what depends on them stays opaque
        if i.args.types().any(|t| ty::Flags::flags(&t).intersects(ty::TypeFlags::HAS_PARAM)) {
            return None;
        }
        let d = i.def_id();
        match i.def {
            InstanceKind::Item(_) => {}
            _ => return None,
        }
        let has = if let Some(l) = d.as_local() {
            BODIES.with(|m| m.borrow().contains_key(&l))
        } else {
            let p = self.tcx.def_path_str(d);
            let dp = format!("{}::", self.tcx.crate_name(d.krate));
            let full = format!("{}{}", dp, self.tcx.def_path(d).to_string_no_crate_verbose().trim_start_matches("::"));
            let _ = p;
            EXT_ALLOW.iter().any(|a| full.starts_with(a))
                && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
                && self.tcx.is_mir_available(d)
        };
        if !has {
            return None;
        }
        let id = self.ids.len();
        self.ids.insert(i, id);
        self.queue.push_back((id, i));
        Some(id)
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) -> String {
        let p = self.path(d.did());
        if !self.adts.contains_key(&p) {
            let mut s = String::new();
            let _ = write!(s, "{{\"enum\":{},\"local\":{},\"variants\":[", d.is_enum(), d.did().is_local());
            for (i, v) in d.variants().iter_enumerated() {
                if i.as_usize() > 0 {
                    s.push(',');
                }
                let discr = if d.is_enum() { d.discriminant_for_variant(self.tcx, i).val.to_string() } else { "0".into() };
                let fs: Vec<String> = v.fields.iter().map(|f| q(f.name.as_str())).collect();
                let _ = write!(s, "{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}", q(v.name.as_str()), discr, fs.join(","));
            }
            s.push_str("]}");
            self.adts.insert(p.clone(), s);
        }
        p
    }
    fn alloc_bytes(&self, id: interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if off + len > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }
    fn bytes_json(&self, b: &[u8], is_str: bool) -> String {
        if is_str {
            if let Ok(s) = std::str::from_utf8(b) {
                return format!("[\"s\",{}]", q(s));
            }
        }
        let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
        format!("[\"b\",[{}]]", v.join(","))
    }
    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        // {"p":declared path,"rp":resolved path,"k":kind,"i":inst id,"ta":[types]}
        let tcx = self.tcx;
        let p = self.path(d);
        let mut ta: Vec<String> = Vec::new();
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                let id = self.tyid(t);
                ta.push(id.to_string());
            }
        }
        let mut s = format!("{{\"p\":{},\"ta\":[{}]", q(&p), ta.join(","));
        match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                let par = tcx.parent(d);
                let (adt_did, vname) = if tcx.def_kind(par) == DefKind::Variant {
                    (tcx.parent(par), Some(par))
                } else {
                    (par, None)
                };
                let ad = tcx.adt_def(adt_did);
                let ap = self.adt(ad);
                let vi = match vname {
                    Some(v) => ad.variant_index_with_id(v).as_usize(),
                    None => 0,
                };
                let _ = write!(s, ",\"k\":\"ctor\",\"adt\":{},\"v\":{}}}", q(&ap), vi);
                return s;
            }
            _ => {}
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => {
                let kind = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                    _ => "shim",
                };
                let rp = self.path(i.def_id());
                let _ = write!(s, ",\"k\":\"{}\",\"rp\":{}", kind, q(&rp));
                if let Some(id) = self.inst(i) {
                    let _ = write!(s, ",\"i\":{}", id);
                }
            }
            _ => {
                s.push_str(",\"k\":\"unresolved\"");
            }
        }
        let krate = tcx.crate_name(d.krate);
        let _ = write!(s, ",\"c\":{}}}", q(krate.as_str()));
        s
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let tid = self.tyid(ty);
        match *ty.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                return format!("{{\"k\":\"fn\",\"f\":{}}}", self.fnref(d, args));
            }
            ty::Closure(d, args) => {
                let i = Instance::new_raw(d, args);
                let id = self.inst(i).map(|x| x as i64).unwrap_or(-1);
                return format!("{{\"k\":\"closure\",\"i\":{}}}", id);
            }
            _ => {}
        }
        let mut path = String::new();
        let mut cinst: Option<usize> = None;
        if let Const::Unevaluated(uv, _) = c.const_ {
            if uv.promoted.is_none() {
                path = self.path(uv.def);
                if uv.def.is_local() {
                    cinst = self.inst(Instance::new_raw(uv.def, uv.args));
                }
            }
        }
        let val = match c.const_ {
            Const::Val(v, _) => Some(v),
            _ => {
                use rustc_middle::ty::TypeVisitableExt;
                if c.const_.has_param() || ty.has_param() {
                    None
                } else {
                    c.const_.eval(tcx, self.env, rustc_span::DUMMY_SP).ok()
                }
            }
        };
        let mut extra = String::new();
        if !path.is_empty() {
            let _ = write!(extra, ",\"path\":{}", q(&path));
        }
        if let Some(i) = cinst {
            let _ = write!(extra, ",\"i\":{}", i);
        }
        let mut v = String::from("null");
        if let Some(val) = val {
            match val {
                ConstValue::ZeroSized => {
                    v = "[\"z\"]".into();
                }
                ConstValue::Scalar(Scalar::Int(i)) => match *ty.kind() {
                    ty::Int(_) => v = format!("[\"i\",\"{}\"]", i.to_int(i.size())),
                    ty::Adt(..) => v = format!("[\"raw\",\"{}\"]", i.to_bits_unchecked()),
                    _ => v = format!("[\"i\",\"{}\"]", i.to_bits_unchecked()),
                },
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    let id = prov.alloc_id();
                    match tcx.try_get_global_alloc(id) {
                        Some(GlobalAlloc::Static(d)) => {
                            v = format!("[\"static\",{}]", q(&self.path(d)));
                        }
                        Some(GlobalAlloc::Function { instance }) => {
                            let p = self.path(instance.def_id());
                            v = format!("[\"fnptr\",{}]", q(&p));
                        }
                        Some(GlobalAlloc::Memory(a)) => {
                            if let ty::Ref(_, inner, _) = *ty.kind() {
                                if let ty::Array(e, _) = *inner.kind() {
                                    if e == tcx.types.u8 {
                                        let len = a.inner().len();
                                        if let Some(b) = self.alloc_bytes(id, off.bytes_usize(), len - off.bytes_usize()) {
                                            v = self.bytes_json(&b, false);
                                        }
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.alloc_bytes(alloc_id, 0, meta as usize) {
                        let is_str = matches!(ty.kind(), ty::Ref(_, t, _) if t.is_str());
                        let is_bytes = matches!(ty.kind(), ty::Ref(_, t, _) if matches!(t.kind(), ty::Slice(e) if *e == tcx.types.u8));
                        if is_str || is_bytes {
                            v = self.bytes_json(&b, is_str);
                        }
                    }
                }
                ConstValue::Indirect { .. } => {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        if let ty::Ref(_, t, _) = *ty.kind() {
                            if t.is_str() {
                                v = self.bytes_json(b, true);
                            }
                        }
                    }
                }
            }
        }
        format!("{{\"k\":\"c\",\"ty\":{},\"v\":{}{}}}", tid, v, extra)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut s = format!("[{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            s.push(',');
            match e {
                ProjectionElem::Deref => s.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match *pty.ty.kind() {
                        ty::Adt(ad, _) => {
                            self.adt(ad);
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if ad.is_enum() && pty.variant_index.is_none() {
                                String::new()
                            } else {
                                ad.variant(vi).fields.get(f).map(|x| x.name.to_string()).unwrap_or_default()
                            }
                        }
                        _ => String::new(),
                    };
                    let _ = write!(s, "[\"f\",{},{}]", f.as_usize(), q(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(s, "[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(s, "[\"d\",{},{}]", v.as_usize(), q(&n.map(|x| x.to_string()).unwrap_or_default()));
                }
                _ => s.push_str("[\"o\"]"),
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        s.push(']');
        s
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c)),
            Operand::RuntimeChecks(_) => "[\"k\",{\"k\":\"c\",\"ty\":0,\"v\":[\"i\",\"0\"]}]".to_string(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"rep\",{},{}]", self.operand(body, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let tid = self.tyid(*t);
                let ks = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", q(&ks), self.operand(body, o), tid)
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(body, &ops.0), self.operand(body, &ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(body, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ap = match *t.kind() {
                    ty::Adt(ad, _) => self.adt(ad),
                    _ => String::new(),
                };
                format!("[\"disc\",{},{}]", self.place(body, p), q(&ap))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(body, x)).collect();
                let o = o.join(",");
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",[{}]]", o),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",[{}]]", o),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let ad = self.tcx.adt_def(*d);
                        let p = self.adt(ad);
                        let af = af.map(|x| x.as_usize() as i64).unwrap_or(-1);
                        format!("[\"agg\",\"adt\",[{}],{},{},{}]", o, q(&p), v.as_usize(), af)
                    }
                    AggregateKind::Closure(d, args) | AggregateKind::Coroutine(d, args) | AggregateKind::CoroutineClosure(d, args) => {
                        let i = Instance::new_raw(*d, args);
                        let id = self.inst(i).map(|x| x as i64).unwrap_or(-1);
                        format!("[\"agg\",\"closure\",[{}],{},{}]", o, id, q(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"tuple\",[{}]]", o),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, o)),
        }
    }
    fn body(&mut self, id: usize, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let body: Body<'tcx> = if let Some(l) = d.as_local() {
            let b: Body<'static> = BODIES.with(|m| m.borrow().get(&l).unwrap().clone());
            unsafe { std::mem::transmute(b) }
        } else {
            tcx.instance_mir(inst.def).clone()
        };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => body,
        };
        let (f, line, mac) = self.span(body.span);
        let kind = match tcx.def_kind(d) {
            DefKind::Closure => {
                if tcx.is_coroutine(d) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Fn | DefKind::AssocFn if self.generic => "generic",
            DefKind::Fn | DefKind::AssocFn => "fn",
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            _ => "other",
        };
        let mut s = String::new();
        let full = with_no_trimmed_paths!(inst.to_string());
        let full = if full.len() > 400 { full.chars().take(400).collect() } else { full };
        let _ = write!(
            s,
            "{{\"id\":{},\"path\":{},\"full\":{},\"local\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"mac\":{},\"argc\":{}",
            id, q(&self.path(d)), q(&full), d.is_local(), kind, q(&f), line, q(&mac), body.arg_count
        );
        let _ = write!(s, ",\"vis\":{}", q(&if matches!(kind, "fn") && d.is_local() { format!("{:?}", tcx.visibility(d)) } else { String::new() }));
        if matches!(kind, "closure" | "coroutine") {
            let par = tcx.typeck_root_def_id(d);
            let _ = write!(s, ",\"root\":{}", q(&self.path(par)));
            if let Some(l) = d.as_local() {
                let names: Vec<String> = tcx.closure_captures(l).iter().map(|c| q(&c.to_string(tcx))).collect();
                let byref: Vec<String> = tcx.closure_captures(l).iter().map(|c| if c.is_by_ref() { "1".to_string() } else { "0".to_string() }).collect();
                let _ = write!(s, ",\"upvars\":[{}],\"upref\":[{}]", names.join(","), byref.join(","));
            }
        }
        if let Some(sp) = body.spread_arg {
            let _ = write!(s, ",\"spread\":{}", sp.as_usize());
        }
        // trait impl info
        if let Some(imp) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let tp = self.path(tr.def_id);
                let st = self.tystr(tr.self_ty());
                let _ = write!(s, ",\"trait\":{},\"self\":{},\"derived\":{}", q(&tp), q(&st), tcx.is_automatically_derived(imp));
            } else {
                let st = self.tystr(tcx.type_of(imp).instantiate_identity().skip_norm_wip());
                let _ = write!(s, ",\"self\":{}", q(&st));
            }
        }
        let lt: Vec<String> = body.local_decls.iter().map(|x| self.tyid(x.ty).to_string()).collect();
        let _ = write!(s, ",\"locals\":[{}]", lt.join(","));
        let mut names: Vec<String> = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("\"{}\":{}", p.local.as_usize(), q(v.name.as_str())));
                }
            }
        }
        // later entries may repeat a local: keep JSON keys unique enough (last wins)
        let _ = write!(s, ",\"names\":{{{}}}", names.join(","));
        s.push_str(",\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let js = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let (_, ln, _) = self.span(st.source_info.span);
                        let rv = self.rvalue(&body, r);
                        format!("[\"A\",{},{},{}]", self.place(&body, p), rv, ln)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"SD\",{},{}]", self.place(&body, place), variant_index.as_usize())
                    }
                    StatementKind::StorageDead(l) => format!("[\"X\",{}]", l.as_usize()),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&js);
            }
            s.push_str("],\"t\":");
            let t = bb.terminator();
            let (tf, ln, mac) = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let tid = self.tyid(dt);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = match *dt.kind() {
                                ty::Int(it) => {
                                    let bits = it.bit_width().unwrap_or(64);
                                    let sh = 128 - bits;
                                    (((v << sh) as i128) >> sh).to_string()
                                }
                                _ => v.to_string(),
                            };
                            format!("[\"{}\",{}]", vs, b.as_usize())
                        })
                        .collect();
                    format!("[\"sw\",{},[{}],{},{}]", self.operand(&body, discr), v.join(","), targets.otherwise().as_usize(), tid)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::Drop { target, place, .. } => format!("[\"drop\",{},{}]", self.place(&body, place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(&body, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&body, &x.node)).collect();
                    let (_, fl, _) = self.span(*fn_span);
                    format!(
                        "[\"call\",{},[{}],{},{},{},{},{}]",
                        f, a.join(","), self.place(&body, destination),
                        target.map(|x| x.as_usize() as i64).unwrap_or(-1), fl, q(&mac), q(&tf)
                    )
                }
                TerminatorKind::TailCall { .. } => "[\"unreach\"]".to_string(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(&body, cond), expected, q(&k), target.as_usize())
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{}]", self.place(&body, resume_arg), resume.as_usize())
                }
                TerminatorKind::InlineAsm { .. } => "[\"unreach\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => "[\"unwind\"]".to_string(),
            };
            s.push_str(&ts);
            let _ = write!(s, ",\"l\":{},\"c\":{}}}", ln, if bb.is_cleanup { 1 } else { 0 });
        }
        s.push_str("]}");
        self.out.insert(id, s);
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let Ok(outdir) = std::env::var("SA_OUT") else { return };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let kind = if tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable") { "bin" } else { "lib" };
    let mut cx = Cx {
        tcx,
        env: ty::TypingEnv::fully_monomorphized(),
        ids: HashMap::new(),
        queue: VecDeque::new(),
        out: BTreeMap::new(),
        adts: BTreeMap::new(),
        tys: HashMap::new(),
        tylist: Vec::new(),
        generic: false,
    };
    let mut roots: Vec<String> = Vec::new();
    for l in tcx.hir_body_owners() {
        let d = l.to_def_id();
        let k = tcx.def_kind(d);
        if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            continue;
        }
        // generic over types: only reached through its monomorphic uses
        let g = tcx.generics_of(d);
        if g.requires_monomorphization(tcx) {
            continue;
        }
        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => unreachable!(),
        });
        let i = Instance::new_raw(d, args);
        if let Some(id) = cx.inst(i) {
            roots.push(id.to_string());
        }
    }
    while let Some((id, i)) = cx.queue.pop_front() {
        cx.body(id, i);
    }
    // public functions over type parameters, as they are written
    for l in tcx.hir_body_owners() {
        let d = l.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) || !tcx.generics_of(d).requires_monomorphization(tcx) || !tcx.effective_visibilities(()).is_exported(l) {
            continue;
        }
        if !BODIES.with(|m| m.borrow().contains_key(&l)) || cx.ids.keys().any(|i| i.def_id() == d) || tcx.opt_associated_item(d).map_or(false, |a| !matches!(a.container, ty::AssocContainer::InherentImpl)) {
            continue;
        }
        let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
        let i = Instance::new_raw(d, args);
        let id = cx.ids.len();
        cx.ids.insert(i, id);
        let env = cx.env;
        cx.env = ty::TypingEnv::post_analysis(tcx, d);
        cx.generic = true;
        cx.body(id, i);
        cx.generic = false;
        cx.env = env;
        while let Some((id, i)) = cx.queue.pop_front() {
            cx.body(id, i);
        }
    }
    // local ADTs (and their fields' types) even when never projected
    let mut adtf = String::new();
    for l in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(l), DefKind::Struct | DefKind::Enum) {
            let ad = tcx.adt_def(l.to_def_id());
            let p = cx.adt(ad);
            let mut fs: Vec<String> = Vec::new();
            for v in ad.variants() {
                for f in &v.fields {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    fs.push(format!("[{},{},{}]", q(v.name.as_str()), q(f.name.as_str()), q(&cx.tystr(t))));
                }
            }
            if !adtf.is_empty() {
                adtf.push(',');
            }
            let (file, line, _) = cx.span(tcx.def_span(l.to_def_id()));
            let _ = write!(adtf, "{}:{{\"file\":{},\"line\":{},\"fields\":[{}]}}", q(&p), q(&file), line, fs.join(","));
        }
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\"kind\":\"{}\",\"roots\":[{}],\n\"bodies\":[\n", q(&krate), kind, roots.join(","));
    let v: Vec<&String> = cx.out.values().collect();
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        o.push_str(b);
    }
    o.push_str("\n],\n\"adts\":{\n");
    for (i, (k, v)) in cx.adts.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        let _ = write!(o, "{}:{}", q(k), v);
    }
    let tl: Vec<String> = cx.tylist.iter().map(|x| q(x)).collect();
    let _ = write!(o, "\n}},\n\"adtfields\":{{{}}},\n\"tys\":[{}]}}\n", adtf, tl.join(",\n"));
    let f = format!("{}/{}-{}.json", outdir, krate, kind);
    std::fs::write(&f, o).expect("write facts");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_built);
            p.queries.mir_built = my_mir_built;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        dump(tcx);
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // invoked as: driver <rustc> <args...> (RUSTC_WORKSPACE_WRAPPER)
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
