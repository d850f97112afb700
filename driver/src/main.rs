//! mirfacts: a rustc wrapper that type-checks a crate as usual and then writes the
//! monomorphic MIR of everything reachable from the crate's functions (types resolved,
//! callees resolved, constants and statics evaluated by the compiler) as JSON.
//!
//! It inspects the program; it never runs it.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

// ---------------------------------------------------------------- tiny JSON

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(out, "{}", n);
            }
            J::S(s) => esc(s, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
            J::M(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}

fn s<T: ToString>(t: T) -> J {
    J::S(t.to_string())
}
fn n<T: TryInto<i128>>(t: T) -> J {
    J::N(t.try_into().ok().unwrap_or(-1))
}

// ---------------------------------------------------------------- dumper

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    inst_order: Vec<Instance<'tcx>>,
    queue: VecDeque<Instance<'tcx>>,
    vtables: HashSet<(Ty<'tcx>, Ty<'tcx>)>,
    vtable_out: Vec<J>,
    statics: HashSet<DefId>,
    static_queue: VecDeque<DefId>,
    static_out: Vec<J>,
    iter_types: HashSet<Ty<'tcx>>,
    trait_out: Vec<J>,
    drops: HashSet<Ty<'tcx>>,
    drop_out: Vec<J>,
    const_depth: usize,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        // Macro expansions: report the outermost call site in source.
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(J::Null);
        let name = with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(name))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.bit_width().unwrap_or(64))));
                o.push(("signed", J::B(true)));
            }
            ty::Uint(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.bit_width().unwrap_or(64))));
                o.push(("signed", J::B(false)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("def", J::S(self.path(def.did()))));
                o.push(("crate", s(self.tcx.crate_name(def.did().krate))));
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                o.push(("adt", s(kind)));
                let targs: Vec<J> = args
                    .iter()
                    .filter_map(|a| a.as_type())
                    .map(|a| n(self.ty(a)))
                    .collect();
                o.push(("args", J::A(targs)));
                if def.is_box() {
                    o.push(("box", J::B(true)));
                }
                // Only expand the fields of local / small library types: all of them are cheap.
                let mut variants = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(self.tcx, vi).val as i128
                    } else {
                        0
                    };
                    let mut fields = vec![];
                    for f in v.fields.iter() {
                        let raw = f.ty(self.tcx, args);
                        let fty = self.norm(raw);
                        let id = match fty {
                            Some(t) => n(self.ty(t)),
                            None => J::Null,
                        };
                        fields.push(J::O(vec![
                            ("n", s(f.name)),
                            ("t", id),
                            ("pub", J::B(self.tcx.visibility(f.did).is_public())),
                        ]));
                    }
                    variants.push(J::O(vec![
                        ("n", s(v.name)),
                        ("d", J::N(discr)),
                        ("f", J::A(fields)),
                    ]));
                }
                o.push(("variants", J::A(variants)));
            }
            ty::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("t", n(self.ty(t))));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("t", n(self.ty(t))));
            }
            ty::Slice(t) => {
                o.push(("k", s("slice")));
                o.push(("t", n(self.ty(t))));
            }
            ty::Array(t, len) => {
                o.push(("k", s("array")));
                o.push(("t", n(self.ty(t))));
                o.push((
                    "len",
                    match len.try_to_target_usize(self.tcx) {
                        Some(l) => n(l),
                        None => J::Null,
                    },
                ));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                o.push(("ts", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("def", J::S(self.path(d))));
                let up = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| n(self.ty(t)))
                    .collect();
                o.push(("ups", J::A(up)));
                let kind = args.as_closure().kind();
                let inst = Instance::resolve_closure(self.tcx, d, args, kind);
                let i = self.inst(inst);
                o.push(("inst", n(i)));
                o.push(("ck", J::S(format!("{:?}", kind))));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("def", J::S(self.path(d))));
                if let Some(args) = args.no_bound_vars() {
                    if let Some(i) = self.resolve(d, args) {
                        let id = self.inst(i);
                        o.push(("inst", n(id)));
                    }
                }
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("trait", J::S(self.path(p))));
                }
            }
            ty::Param(_) => o.push(("k", s("param"))),
            _ => o.push(("k", s("other"))),
        }
        self.type_out[id] = J::O(o);
        id
    }
}

/// Library functions whose MIR is exported and interpreted as code. Everything else in the
/// standard library is a named model in the analyser.
fn std_body_wanted(path: &str) -> bool {
    const YES: &[&str] = &[
        "core::option::", "std::option::", "core::result::", "std::result::",
        "core::iter::", "std::iter::", "core::ops::", "std::ops::",
        "core::convert::", "std::convert::", "core::cmp::", "std::cmp::",
        "core::clone::", "std::clone::", "core::bool::", "core::tuple::", "std::mem::", "core::mem::",
        "core::array::", "std::array::", "std::borrow::", "alloc::borrow::",
        "std::slice::SliceIndex", "core::slice::index", "std::slice::index", "std::ascii", "core::ascii",
        "core::default", "std::default", "core::num", "std::num", "std::char", "core::char",
        "std::vec::", "std::slice::", "std::boxed::", "std::rc::", "std::cell::",
    ];
    const NO: &[&str] = &["std::fmt", "core::fmt"];
    let p = path.trim_start_matches('<').trim_start_matches('&').trim_start_matches("mut ");
    let _ = p;
    if NO.iter().any(|x| path.contains(x)) {
        return false;
    }
    YES.iter().any(|x| path.contains(x))
}

impl<'tcx> Dump<'tcx> {
    fn norm<T>(&self, v: ty::Unnormalized<'tcx, T>) -> Option<T>
    where
        T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone,
    {
        self.tcx.try_normalize_erasing_regions(self.env, v).ok()
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        use rustc_middle::ty::TypeVisitableExt;
        if args.has_param() {
            return None;
        }
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => Some(i),
            _ => None,
        }
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let id = self.inst_order.len();
        self.inst_ids.insert(i, id);
        self.inst_order.push(i);
        self.queue.push_back(i);
        id
    }

    fn implements(&self, t: Ty<'tcx>, tr: DefId, extra: &[ty::GenericArg<'tcx>]) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_middle::ty::TypeVisitableExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        if t.has_param() || t.has_escaping_bound_vars() {
            return false;
        }
        let infcx = self.tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
        let mut args: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
        args.extend_from_slice(extra);
        infcx
            .type_implements_trait(tr, args, self.env.param_env)
            .must_apply_modulo_regions()
    }

    fn trait_method(&mut self, t: Ty<'tcx>, tr: DefId, m: &str, extra: &[ty::GenericArg<'tcx>]) {
        let item = self
            .tcx
            .associated_items(tr)
            .in_definition_order()
            .find(|i| i.is_fn() && i.name().as_str() == m)
            .map(|i| i.def_id);
        let Some(item) = item else { return };
        let mut args: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
        args.extend_from_slice(extra);
        let args = self.tcx.mk_args(&args);
        if self.tcx.generics_of(item).count() != args.len() {
            return;
        }
        let args = self.tcx.erase_and_anonymize_regions(args);
        if let Some(i) = self.resolve(item, args) {
            let id = self.inst(i);
            let tid = self.ty(t);
            let tp = self.path(tr);
            self.trait_out.push(J::A(vec![J::S(tp), n(tid), s(m), n(id)]));
        }
    }

    fn consider_type(&mut self, t: Ty<'tcx>) {
        use rustc_middle::ty::TypeVisitableExt;
        if t.has_param() || t.has_escaping_bound_vars() || !self.iter_types.insert(t) {
            return;
        }
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(..) | ty::Ref(..) | ty::Closure(..) | ty::Dynamic(..) | ty::Tuple(..) | ty::Array(..) => {}
            _ => return,
        }
        let li = tcx.lang_items();
        if let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
            if self.implements(t, tr, &[]) {
                self.trait_method(t, tr, "next", &[]);
                if let Some(d) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("DoubleEndedIterator")) {
                    if self.implements(t, d, &[]) {
                        self.trait_method(t, d, "next_back", &[]);
                    }
                }
            }
        }
        if let Some(tr) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("IntoIterator")) {
            if self.implements(t, tr, &[]) {
                self.trait_method(t, tr, "into_iter", &[]);
            }
        }
        let local_adt = match t.kind() {
            ty::Adt(def, _) => {
                let c = tcx.crate_name(def.did().krate);
                def.did().is_local() || c.as_str() == "cbm"
            }
            ty::Tuple(ts) => !ts.is_empty(),
            ty::Closure(..) => true,
            _ => false,
        };
        if local_adt {
            if let Some(tr) = li.clone_trait() {
                if self.implements(t, tr, &[]) {
                    self.trait_method(t, tr, "clone", &[]);
                }
            }
            if let Some(tr) = li.eq_trait() {
                if self.implements(t, tr, &[t.into()]) {
                    self.trait_method(t, tr, "eq", &[t.into()]);
                }
            }
            for nm in ["Ord"] {
                if let Some(tr) = tcx.get_diagnostic_item(rustc_span::Symbol::intern(nm)) {
                    if self.implements(t, tr, &[]) {
                        self.trait_method(t, tr, "cmp", &[]);
                    }
                }
            }
            for (nm, ms) in [("IoRead", vec!["read"]), ("IoWrite", vec!["write", "flush"])] {
                let d = tcx.get_diagnostic_item(rustc_span::Symbol::intern(nm));
                if let Some(tr) = d {
                    if self.implements(t, tr, &[]) {
                        for m in ms {
                            self.trait_method(t, tr, m, &[]);
                        }
                    }
                }
            }
        }
    }

    // ---------------- constants

    fn alloc_value(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>) -> J {
        self.cval(ConstValue::Indirect { alloc_id: aid, offset: off }, t)
    }

    fn slice_value(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, len: u64, el: Ty<'tcx>) -> J {
        let lay = match self.tcx.layout_of(self.env.as_query_input(el)) {
            Ok(l) => l,
            Err(_) => return J::O(vec![("c", s("opaque"))]),
        };
        let mut v = vec![];
        for i in 0..len {
            let o = off + lay.size * i;
            v.push(self.alloc_value(aid, o, el));
        }
        J::O(vec![("c", s("arr")), ("v", J::A(v))])
    }

    fn pointee(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, meta: Option<u64>, t: Ty<'tcx>) -> J {
        match self.tcx.global_alloc(aid) {
            GlobalAlloc::Static(d) => {
                self.want_static(d);
                if off.bytes() == 0 {
                    let len = meta.map(|m| n(m)).unwrap_or(J::Null);
                    return J::O(vec![("c", s("ref")), ("static", J::S(self.path(d))), ("len", len)]);
                }
                // a pointer into the middle of a static: fall back to the initialiser
                if let Ok(alloc) = self.tcx.eval_static_initializer(d) {
                    let aid2 = self.tcx.reserve_and_set_memory_alloc(alloc);
                    return self.pointee(aid2, off, meta, t);
                }
                J::O(vec![("c", s("opaque"))])
            }
            GlobalAlloc::Memory(mem) => match *t.kind() {
                ty::Str => {
                    let len = meta.unwrap_or(0) as usize;
                    let a = off.bytes() as usize;
                    let bytes = mem.inner().inspect_with_uninit_and_ptr_outside_interpreter(a..a + len);
                    J::O(vec![("c", s("str")), ("v", J::S(String::from_utf8_lossy(bytes).to_string()))])
                }
                ty::Slice(el) => {
                    let v = self.slice_value(aid, off, meta.unwrap_or(0), el);
                    J::O(vec![("c", s("ref")), ("v", v), ("slice", J::B(true))])
                }
                _ => {
                    let v = self.alloc_value(aid, off, t);
                    J::O(vec![("c", s("ref")), ("v", v)])
                }
            },
            _ => J::O(vec![("c", s("opaque"))]),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        if self.const_depth > 60 {
            return J::O(vec![("c", s("opaque"))]);
        }
        self.const_depth += 1;
        let r = self.cval_(v, t);
        self.const_depth -= 1;
        r
    }

    fn cval_(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(b) = v.try_to_bits_for_ty(tcx, self.env, t) {
                    let mut x = b as i128;
                    if let ty::Int(_) = t.kind() {
                        if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                            x = l.size.sign_extend(b) as i128;
                        }
                    }
                    return J::N(x);
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let (GlobalAlloc::Memory(mem), Ok(l)) = (tcx.global_alloc(alloc_id), tcx.layout_of(self.env.as_query_input(t))) {
                        let a = offset.bytes() as usize;
                        let z = l.size.bytes() as usize;
                        let bytes = mem.inner().inspect_with_uninit_and_ptr_outside_interpreter(a..a + z);
                        let mut b: u128 = 0;
                        for (i, x) in bytes.iter().enumerate() {
                            b |= (*x as u128) << (8 * i);
                        }
                        let x = if let ty::Int(_) = t.kind() { l.size.sign_extend(b) as i128 } else { b as i128 };
                        return J::N(x);
                    }
                }
                return J::O(vec![("c", s("opaque"))]);
            }
            ty::FnDef(..) | ty::Closure(..) => {
                return J::O(vec![("c", s("zst"))]);
            }
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => match v {
                ConstValue::Scalar(Scalar::Ptr(ptr, _)) => {
                    let (prov, off) = ptr.into_raw_parts();
                    return self.pointee(prov.alloc_id(), off, None, p);
                }
                ConstValue::Slice { alloc_id, meta } => {
                    return self.pointee(alloc_id, rustc_abi::Size::ZERO, Some(meta), p);
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let GlobalAlloc::Memory(mem) = tcx.global_alloc(alloc_id) {
                        let ps = tcx.data_layout.pointer_size();
                        let prov = mem.inner().provenance().ptrs().get(&offset).copied();
                        let a = offset.bytes() as usize;
                        let p8 = ps.bytes() as usize;
                        let bytes = mem.inner().inspect_with_uninit_and_ptr_outside_interpreter(a..a + p8);
                        let mut addr = [0u8; 8];
                        addr.copy_from_slice(bytes);
                        let off = rustc_abi::Size::from_bytes(u64::from_le_bytes(addr));
                        let meta = match p.kind() {
                            ty::Str | ty::Slice(_) => {
                                let bytes = mem.inner().inspect_with_uninit_and_ptr_outside_interpreter(a + p8..a + 2 * p8);
                                let mut m = [0u8; 8];
                                m.copy_from_slice(bytes);
                                Some(u64::from_le_bytes(m))
                            }
                            _ => None,
                        };
                        if let Some(pr) = prov {
                            return self.pointee(pr.alloc_id(), off, meta, p);
                        }
                        if meta == Some(0) {
                            return J::O(vec![("c", s("ref")), ("slice", J::B(true)), ("v", J::O(vec![("c", s("arr")), ("v", J::A(vec![]))]))]);
                        }
                    }
                    return J::O(vec![("c", s("opaque"))]);
                }
                _ => return J::O(vec![("c", s("opaque"))]),
            },
            ty::Array(el, len) => {
                let len = len.try_to_target_usize(tcx).unwrap_or(0);
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    return self.slice_value(alloc_id, offset, len, el);
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs = d.fields.iter().map(|(v, t)| self.cval(*v, *t)).collect();
                    return J::O(vec![("c", s("arr")), ("v", J::A(fs))]);
                }
                return J::O(vec![("c", s("opaque"))]);
            }
            ty::Adt(def, _) if def.is_union() => return J::O(vec![("c", s("opaque"))]),
            ty::Adt(..) | ty::Tuple(..) => {
                if let ty::Adt(def, _) = t.kind() {
                    if def.variants().is_empty() {
                        return J::O(vec![("c", s("opaque"))]);
                    }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs = d.fields.iter().map(|(v, t)| self.cval(*v, *t)).collect();
                    return J::O(vec![
                        ("c", s("agg")),
                        ("var", n(d.variant.map(|v| v.as_usize()).unwrap_or(0))),
                        ("v", J::A(fs)),
                    ]);
                }
                return J::O(vec![("c", s("opaque"))]);
            }
            _ => {}
        }
        match v {
            ConstValue::ZeroSized => J::O(vec![("c", s("zst"))]),
            _ => J::O(vec![("c", s("opaque"))]),
        }
    }

    fn want_static(&mut self, d: DefId) {
        if self.statics.insert(d) {
            self.static_queue.push_back(d);
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tid = self.ty(t);
        let v = match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => self.cval(v, t),
            Err(_) => J::O(vec![("c", s("opaque"))]),
        };
        let mut o = vec![("k", s("const")), ("t", n(tid)), ("v", v)];
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("name", J::S(self.path(u.def))));
        }
        J::O(o)
    }

    // ---------------- MIR

    fn place(&mut self, p: Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), n(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(offset), n(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("d"), n(vi.as_usize())]),
                _ => J::A(vec![s("id")]),
            });
        }
        J::O(vec![("l", n(p.local.as_usize())), ("p", J::A(v))])
    }

    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(*p);
                J::O(vec![("k", s("copy")), ("p", p)])
            }
            Operand::Move(p) => {
                let p = self.place(*p);
                J::O(vec![("k", s("move")), ("p", p)])
            }
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(r) => J::O(vec![("k", s("rtcheck")), ("v", J::S(format!("{:?}", r)))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::O(vec![("k", s("use")), ("o", self.op(o))]),
            Rvalue::Repeat(o, c) => J::O(vec![
                ("k", s("repeat")),
                ("o", self.op(o)),
                ("n", c.try_to_target_usize(self.tcx).map(|x| n(x)).unwrap_or(J::Null)),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(*p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("ref")), ("raw", J::B(true)), ("p", self.place(*p))]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let kind = format!("{:?}", k);
                if kind.contains("Unsize") {
                    self.unsize(from, *t);
                }
                let fid = self.ty(from);
                let tid = self.ty(*t);
                J::O(vec![("k", s("cast")), ("c", J::S(kind)), ("o", self.op(o)), ("from", n(fid)), ("t", n(tid))])
            }
            Rvalue::BinaryOp(b, ops) => {
                let lt = ops.0.ty(&body.local_decls, self.tcx);
                let lt = self.ty(lt);
                J::O(vec![("k", s("bin")), ("op", J::S(format!("{:?}", b))), ("a", self.op(&ops.0)), ("b", self.op(&ops.1)), ("t", n(lt))])
            }
            Rvalue::UnaryOp(u, o) => {
                let lt = o.ty(&body.local_decls, self.tcx);
                let lt = self.ty(lt);
                J::O(vec![("k", s("un")), ("op", J::S(format!("{:?}", u))), ("a", self.op(o)), ("t", n(lt))])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let tid = self.ty(t);
                J::O(vec![("k", s("discr")), ("p", self.place(*p)), ("t", n(tid))])
            }
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|o| self.op(o)).collect();
                let mut o = vec![("k", s("agg")), ("f", J::A(f))];
                match &**k {
                    AggregateKind::Array(et) => {
                        let tid = self.ty(*et);
                        o.push(("a", s("array")));
                        o.push(("et", n(tid)));
                    }
                    AggregateKind::Tuple => o.push(("a", s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args);
                        if let Some(t) = self.norm(t) {
                            let tid = self.ty(t);
                            o.push(("t", n(tid)));
                        }
                        o.push(("a", s("adt")));
                        o.push(("def", J::S(self.path(*d))));
                        o.push(("var", n(vi.as_usize())));
                        if let Some(af) = af {
                            o.push(("af", n(af.as_usize())));
                        }
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let tid = self.ty(t);
                        o.push(("a", s("closure")));
                        o.push(("t", n(tid)));
                    }
                    AggregateKind::RawPtr(..) => o.push(("a", s("rawptr"))),
                    _ => o.push(("a", s("other"))),
                }
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(*p);
                J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", p)]))])
            }
            Rvalue::ThreadLocalRef(_) => J::O(vec![("k", s("other"))]),
            _ => J::O(vec![("k", s("other")), ("dbg", J::S(format!("{:?}", r)))]),
        }
    }

    /// Record the vtable behind an unsizing coercion to a trait object.
    fn unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
        let (a, b) = (self.strip_ptr(from), self.strip_ptr(to));
        if let (Some(a), Some(b)) = (a, b) {
            self.unsize_pointee(a, b);
        }
    }

    fn strip_ptr(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match *t.kind() {
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => Some(p),
            ty::Adt(_, args) => args.types().next(),
            _ => None,
        }
    }

    fn unsize_pointee(&mut self, a: Ty<'tcx>, b: Ty<'tcx>) {
        match (*a.kind(), *b.kind()) {
            (_, ty::Dynamic(preds, ..)) => {
                if !self.vtables.insert((a, b)) {
                    return;
                }
                let Some(p) = preds.principal() else { return };
                let p = self.tcx.instantiate_bound_regions_with_erased(p);
                let tr = p.with_self_ty(self.tcx, a);
                let tr = self.tcx.erase_and_anonymize_regions(tr);
                let mut ms = vec![];
                for it in self.tcx.associated_items(tr.def_id).in_definition_order() {
                    if !it.is_fn() {
                        continue;
                    }
                    let d = it.def_id;
                    if self.tcx.generics_of(d).count() != tr.args.len() {
                        // has own generics (including late lifetimes are not counted)
                        if self.tcx.generics_of(d).own_requires_monomorphization() {
                            continue;
                        }
                    }
                    let args = ty::GenericArgs::for_item(self.tcx, d, |param, _| {
                        if (param.index as usize) < tr.args.len() {
                            tr.args[param.index as usize]
                        } else {
                            self.tcx.lifetimes.re_erased.into()
                        }
                    });
                    if let Some(i) = self.resolve(d, args) {
                        let id = self.inst(i);
                        ms.push((it.name().to_string(), n(id)));
                    }
                }
                let (ta, tb) = (self.ty(a), self.ty(b));
                let tp = self.path(tr.def_id);
                self.vtable_out.push(J::O(vec![("t", n(ta)), ("dyn", n(tb)), ("trait", J::S(tp)), ("m", J::M(ms))]));
            }
            (ty::Adt(d1, a1), ty::Adt(d2, a2)) if d1 == d2 => {
                if let (Some(x), Some(y)) = (a1.types().last(), a2.types().last()) {
                    if x != y {
                        self.unsize_pointee(x, y);
                    }
                    // Box<T, A> / Rc<T, A>: the first argument is the pointee.
                    if let (Some(x), Some(y)) = (a1.types().next(), a2.types().next()) {
                        if x != y {
                            self.unsize_pointee(x, y);
                        }
                    }
                }
            }
            _ => {}
        }
    }

    fn callee(&mut self, f: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        let t = f.ty(&body.local_decls, self.tcx);
        if let ty::FnDef(d, args) = *t.kind() {
            let Some(args) = args.no_bound_vars() else { return J::O(vec![("path", J::S(self.path(d)))]) };
            let mut o = vec![("path", J::S(self.path(d)))];
            let targs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|a| n(self.ty(a))).collect();
            for a in args.iter().filter_map(|a| a.as_type()) {
                self.consider_type(a);
            }
            o.push(("targs", J::A(targs)));
            if let Some(tr) = self.tcx.trait_of_assoc(d) {
                o.push(("trait", J::S(self.path(tr))));
                o.push(("m", s(self.tcx.item_name(d))));
            }
            if let Some(i) = self.resolve(d, args) {
                let id = self.inst(i);
                o.push(("inst", n(id)));
            }
            return J::O(o);
        }
        let op = self.op(f);
        J::O(vec![("ptr", op)])
    }

    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let mut o = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("to", n(target.as_usize()))],
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&body.local_decls, self.tcx);
                let dt = self.ty(dt);
                let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::N(v as i128), n(b.as_usize())])).collect();
                vec![("k", s("switch")), ("o", self.op(discr)), ("t", n(dt)), ("v", J::A(v)), ("else", n(targets.otherwise().as_usize()))]
            }
            TerminatorKind::Return => vec![("k", s("return"))],
            TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![("k", s("resume"))],
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(&body.local_decls, self.tcx).ty;
                self.want_drop(t);
                let tid = self.ty(t);
                vec![("k", s("drop")), ("p", self.place(*place)), ("t", n(tid)), ("to", n(target.as_usize()))]
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let a: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                let at: Vec<J> = args
                    .iter()
                    .map(|x| {
                        let t = x.node.ty(&body.local_decls, self.tcx);
                        n(self.ty(t))
                    })
                    .collect();
                let dt = destination.ty(&body.local_decls, self.tcx).ty;
                let dt = self.ty(dt);
                vec![
                    ("k", s("call")),
                    ("f", self.callee(func, body)),
                    ("a", J::A(a)),
                    ("at", J::A(at)),
                    ("d", self.place(*destination)),
                    ("dt", n(dt)),
                    ("to", target.map(|b| n(b.as_usize())).unwrap_or(J::Null)),
                    ("fsp", self.span(*fn_span)),
                ]
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let mut v = vec![("k", s("assert")), ("o", self.op(cond)), ("exp", J::B(*expected)), ("to", n(target.as_usize()))];
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(b, ..) => format!("overflow:{:?}", b),
                    AssertKind::OverflowNeg(_) => "overflow:neg".to_string(),
                    AssertKind::DivisionByZero(_) => "div0".to_string(),
                    AssertKind::RemainderByZero(_) => "rem0".to_string(),
                    _ => "other".to_string(),
                };
                if let AssertKind::BoundsCheck { len, index } = &**msg {
                    v.push(("len", self.op(len)));
                    v.push(("idx", self.op(index)));
                }
                v.push(("msg", J::S(m)));
                v
            }
            TerminatorKind::FalseEdge { real_target, .. } => vec![("k", s("goto")), ("to", n(real_target.as_usize()))],
            TerminatorKind::FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("to", n(real_target.as_usize()))],
            _ => vec![("k", s("other"))],
        };
        o.push(("sp", sp));
        J::O(o)
    }

    fn want_drop(&mut self, t: Ty<'tcx>) {
        use rustc_middle::ty::TypeVisitableExt;
        if t.has_param() || !self.drops.insert(t) {
            return;
        }
        if let ty::Adt(def, args) = *t.kind() {
            if let Some(d) = def.destructor(self.tcx) {
                if def.did().is_local() || self.tcx.crate_name(def.did().krate).as_str() == "cbm" {
                    let i = Instance::new_raw(d.did, args);
                    let id = self.inst(i);
                    let tid = self.ty(t);
                    self.drop_out.push(J::A(vec![n(tid), n(id)]));
                }
            }
            for a in args.types() {
                self.want_drop(a);
            }
            if def.is_union() {
                return;
            }
            for v in def.variants() {
                for f in &v.fields {
                    if let Some(ft) = self.norm(f.ty(self.tcx, args)) {
                        self.want_drop(ft);
                    }
                }
            }
        } else if let ty::Tuple(ts) = *t.kind() {
            for x in ts {
                self.want_drop(x);
            }
        } else if let ty::Array(x, _) | ty::Slice(x) = *t.kind() {
            self.want_drop(x);
        }
    }

    fn body(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(i.def);
        let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, raw.clone()),
        );
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            locals.push(n(self.ty(d.ty)));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(p);
                names.push(J::A(vec![s(v.name), pl]));
            }
        }
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let pj = self.place(*p);
                        let rj = self.rvalue(r, &body);
                        let sp = self.span(x.source_info.span);
                        st.push(J::O(vec![("k", s("=")), ("p", pj), ("r", rj), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(**place);
                        st.push(J::O(vec![("k", s("setd")), ("p", pj), ("v", n(variant_index.as_usize()))]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::O(vec![("k", s("sd")), ("l", n(l.as_usize()))])),
                    StatementKind::StorageLive(l) => st.push(J::O(vec![("k", s("sl")), ("l", n(l.as_usize()))])),
                    StatementKind::Intrinsic(k) => st.push(J::O(vec![("k", s("intr")), ("dbg", J::S(format!("{:?}", k)))])),
                    _ => {}
                }
            }
            let t = self.term(b.terminator(), &body);
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("c", J::B(b.is_cleanup))]));
        }
        J::O(vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
        ])
    }

    fn instance_json(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = i.def_id();
        let name = with_no_trimmed_paths!(i.to_string());
        let path = self.path(d);
        let krate = tcx.crate_name(d.krate).to_string();
        let local = d.is_local() || krate == "cbm";
        let kind = match i.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic(_) => "intrinsic".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once".to_string(),
            InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim".to_string(),
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop_glue".to_string(),
            InstanceKind::Shim(_) => "shim".to_string(),
        };
        let mut o = vec![
            ("name", J::S(name)),
            ("path", J::S(path.clone())),
            ("crate", J::S(krate)),
            ("kind", J::S(kind.clone())),
            ("local", J::B(local)),
        ];
        let targs: Vec<J> = i.args.iter().filter_map(|a| a.as_type()).map(|a| n(self.ty(a))).collect();
        for a in i.args.iter().filter_map(|a| a.as_type()) {
            self.consider_type(a);
        }
        o.push(("targs", J::A(targs)));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            o.push(("exported", J::B(d.as_local().map(|l| tcx.effective_visibilities(()).is_exported(l)).unwrap_or(true))));
            o.push(("fname", s(tcx.item_name(d))));
            o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
        }
        o.push(("span", self.span(tcx.def_span(d))));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(tr))));
            o.push(("m", s(tcx.item_name(d))));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o.push(("trait", J::S(self.path(tr.skip_binder().def_id))));
                o.push(("m", s(tcx.item_name(d))));
            }
            let st = tcx.type_of(im).instantiate_identity();
            o.push(("self_def", J::S(with_no_trimmed_paths!(st.skip_norm_wip().to_string()))));
        }
        let want = match i.def {
            InstanceKind::Item(_) => (local || std_body_wanted(&path)) && tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => true,
            InstanceKind::Shim(ShimKind::Clone(..)) => true,
            InstanceKind::Shim(ShimKind::FnPtr(..)) => true,
            _ => false,
        };
        if want {
            use rustc_middle::ty::TypeVisitableExt;
            if !i.has_param() {
                let b = self.body(i);
                o.push(("body", b));
            }
        }
        J::O(o)
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        use rustc_middle::ty::TypeVisitableExt;
        let mut roots = vec![];
        // All non-generic local functions.
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let g = tcx.generics_of(d);
                    if g.requires_monomorphization(tcx) {
                        continue;
                    }
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    let args = ty::GenericArgs::for_item(tcx, d, |_, _| tcx.lifetimes.re_erased.into());
                    let i = Instance::new_raw(d, args);
                    roots.push(self.inst(i));
                }
                DefKind::Static { .. } => self.want_static(d),
                DefKind::Impl { of_trait: true } => {
                    // Provided (default) methods of local traits at this implementing type.
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let tr = tcx.erase_and_anonymize_regions(tr);
                    if tr.has_param() || !(tr.def_id.is_local() || tcx.crate_name(tr.def_id.krate).as_str() == "cbm") {
                        continue;
                    }
                    for it in tcx.associated_items(tr.def_id).in_definition_order() {
                        if !it.is_fn() || tcx.generics_of(it.def_id).own_requires_monomorphization() {
                            continue;
                        }
                        let args = ty::GenericArgs::for_item(tcx, it.def_id, |param, _| {
                            if (param.index as usize) < tr.args.len() {
                                tr.args[param.index as usize]
                            } else {
                                tcx.lifetimes.re_erased.into()
                            }
                        });
                        if let Some(i) = self.resolve(it.def_id, args) {
                            roots.push(self.inst(i));
                            let tid = self.ty(tr.self_ty());
                            let id = self.inst(i);
                            let tp = self.path(tr.def_id);
                            self.trait_out.push(J::A(vec![J::S(tp), n(tid), s(it.name()), n(id)]));
                        }
                    }
                }
                _ => {}
            }
        }
        // Trait objects of local traits: default methods with Self = dyn Trait are reached by calls.
        let mut insts: HashMap<usize, J> = HashMap::new();
        loop {
            if let Some(i) = self.queue.pop_front() {
                let id = self.inst_ids[&i];
                let j = self.instance_json(i);
                insts.insert(id, j);
                continue;
            }
            if let Some(d) = self.static_queue.pop_front() {
                let t0 = tcx.type_of(d).instantiate_identity();
                let t = self.norm(t0).unwrap_or_else(|| tcx.type_of(d).instantiate_identity().skip_norm_wip());
                if let Ok(alloc) = tcx.eval_static_initializer(d) {
                    let local = d.is_local() || tcx.crate_name(d.krate).as_str() == "cbm";
                    if local {
                        let aid = tcx.reserve_and_set_memory_alloc(alloc);
                        let v = self.alloc_value(aid, rustc_abi::Size::ZERO, t);
                        let tid = self.ty(t);
                        let p = self.path(d);
                        let sp = self.span(tcx.def_span(d));
                        self.static_out.push(J::O(vec![("path", J::S(p)), ("t", n(tid)), ("v", v), ("sp", sp), ("mut", J::B(tcx.static_mutability(d).map(|m| m.is_mut()).unwrap_or(false)))]));
                    }
                }
                continue;
            }
            break;
        }
        let mut arr = vec![];
        for k in 0..self.inst_order.len() {
            arr.push(insts.remove(&k).unwrap_or(J::Null));
        }
        let out = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
            ("types", J::A(std::mem::take(&mut self.type_out))),
            ("insts", J::A(arr)),
            ("roots", J::A(roots.into_iter().map(|x| n(x)).collect())),
            ("vtables", J::A(std::mem::take(&mut self.vtable_out))),
            ("traits", J::A(std::mem::take(&mut self.trait_out))),
            ("drops", J::A(std::mem::take(&mut self.drop_out))),
            ("statics", J::A(std::mem::take(&mut self.static_out))),
        ]);
        let mut text = String::new();
        out.w(&mut text);
        text
    }
}

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
            let mut d = Dump {
                tcx,
                env: TypingEnv::fully_monomorphized(),
                types: HashMap::new(),
                type_out: vec![],
                inst_ids: HashMap::new(),
                inst_order: vec![],
                queue: VecDeque::new(),
                vtables: HashSet::new(),
                vtable_out: vec![],
                statics: HashSet::new(),
                static_queue: VecDeque::new(),
                static_out: vec![],
                iter_types: HashSet::new(),
                trait_out: vec![],
                drops: HashSet::new(),
                drop_out: vec![],
                const_depth: 0,
            };
            let text = d.run();
            let p = format!("{}/{}.json", dir, name);
            std::fs::write(&p, text).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
