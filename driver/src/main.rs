//! mirfacts: a rustc driver that writes the type-checked program as facts (JSON lines), one record per
//! function body, ADT and impl. It is run by cargo as RUSTC_WORKSPACE_WRAPPER; every deciding step of the
//! checks works on these records.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_index;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{PrintTraitRefExt, with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::{ExpnKind, MacroKind, Span};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn q(s: &str) -> String { let mut o = String::with_capacity(s.len() + 2); esc(s, &mut o); o }
fn list<T>(it: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut o = String::from("[");
    for (i, x) in it.into_iter().enumerate() { if i > 0 { o.push(','); } o.push_str(&f(x)); }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: HashMap<LocalDefId, (Body<'tcx>, Vec<Body<'tcx>>)>,
    queue: VecDeque<(DefId, GenericArgsRef<'tcx>)>,
    seen: HashSet<(DefId, GenericArgsRef<'tcx>)>,
    adts: HashSet<DefId>,
    adt_queue: Vec<DefId>,
    out: std::io::BufWriter<std::fs::File>,
    nbodies: usize,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str(d)));
        if s.contains("__SerializeWith") {
            // one derived impl holds several helpers of this name: tell them apart
            if self.tcx.opt_item_name(d).map_or(false, |n| n.as_str() == "__SerializeWith") { return format!("{}#{}", s, self.tcx.def_key(d).disambiguated_data.disambiguator); }
            let mut cur = d;
            while let Some(p) = self.tcx.opt_parent(cur) {
                if matches!(self.tcx.def_kind(p), DefKind::Impl { .. }) {
                    if let ty::Adt(a, _) = self.tcx.type_of(p).instantiate_identity().skip_norm_wip().kind() { if self.tcx.item_name(a.did()).as_str() == "__SerializeWith" { return format!("{}#{}", s, self.tcx.def_key(a.did()).disambiguated_data.disambiguator); } }
                }
                cur = p;
            }
        }
        s
    }
    fn key(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let a = self.tcx.erase_and_anonymize_regions(a);
        if self.tcx.is_closure_like(d) {
            // closures: name by definition, with the generics of the enclosing item when there are any
            let par = self.tcx.typeck_root_def_id(d);
            let n = self.tcx.generics_of(par).count();
            let pa = self.tcx.mk_args(&a[..n.min(a.len())]);
            let has = pa.iter().any(|x| x.as_region().is_none());
            let p = self.path(d);
            if has { return format!("{}<{}>", p, self.args_str(pa)); }
            return p;
        }
        let n = self.path(d);
        let has = a.iter().any(|x| x.as_region().is_none());
        if has { format!("{}<{}>", n, self.args_str(a)) } else { n }
    }
    fn args_str(&self, a: GenericArgsRef<'tcx>) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(a.iter().filter(|x| x.as_region().is_none()).map(|x| format!("{}", x)).collect::<Vec<_>>().join(", ")))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note_adts(t);
        let t = self.tcx.erase_and_anonymize_regions(t);
        let s = with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t)));
        if s.contains("__SerializeWith") { if let ty::Adt(a, _) = t.peel_refs().kind() { if self.tcx.item_name(a.did()).as_str() == "__SerializeWith" { return format!("{}#{}", s, self.tcx.def_key(a.did()).disambiguated_data.disambiguator); } } }
        s
    }
    fn note_adts(&mut self, t: Ty<'tcx>) {
        for x in t.walk() {
            if let Some(t) = x.as_type() {
                if let ty::Adt(d, _) = t.kind() { if self.adts.insert(d.did()) { self.adt_queue.push(d.did()); } }
            }
        }
    }
    fn span(&self, s: Span) -> (String, usize) {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        (l.file.name.prefer_local_unconditionally().to_string(), l.line)
    }
    fn macro_of(&self, s: Span) -> Option<String> {
        let mut r = None;
        let mut s = s;
        while s.from_expansion() {
            let e = s.ctxt().outer_expn_data();
            if let ExpnKind::Macro(k, n) = e.kind {
                match k { MacroKind::Bang => r = Some(n.to_string()), MacroKind::Attr | MacroKind::Derive => r = Some(format!("#{}", n)) }
            } else if let ExpnKind::Desugaring(d) = e.kind {
                if r.is_none() { r = Some(format!("~{:?}", d)); }
            }
            s = e.call_site;
        }
        r
    }
    fn place(&mut self, p: &Place<'tcx>, b: &Body<'tcx>) -> String {
        if p.projection.is_empty() { return format!("[{}]", p.local.as_usize()); }
        let mut o = format!("[{}", p.local.as_usize());
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&b.local_decls, self.tcx);
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = bt.variant_index.unwrap_or(VariantIdx::from_u32(0));
                            if d.is_enum() && bt.variant_index.is_none() { None } else { d.variants().get(v).and_then(|v| v.fields.get(f)).map(|f| f.name.to_string()) }
                        }
                        _ => None,
                    };
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), name.map(|n| q(&n)).unwrap_or("null".into()));
                }
                ProjectionElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(n, v) => {
                    let name = match bt.ty.kind() { ty::Adt(d, _) if d.is_enum() => d.variant(v).name.to_string(), _ => n.map(|n| n.to_string()).unwrap_or_default() };
                    let _ = write!(o, ",[\"d\",{},{}]", v.as_usize(), q(&name));
                }
                ProjectionElem::OpaqueCast(_) => {}
                ProjectionElem::PhantomDeref => o.push_str(",\"*\""),
                ProjectionElem::UnwrapUnsafeBinder(_) => {}
            }
        }
        o.push(']');
        o
    }
    fn operand(&mut self, op: &Operand<'tcx>, b: &Body<'tcx>, te: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, b)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, b)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_, te, c.span)),
            #[allow(unreachable_patterns)]
            _ => "[\"k\",{\"t\":\"bool\",\"x\":1}]".to_string(),
        }
    }
    fn constant(&mut self, c: &Const<'tcx>, te: TypingEnv<'tcx>, span: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ts = self.ty(t);
        let mut o = format!("{{\"t\":{}", q(&ts));
        let t = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(t)).unwrap_or(t);
        match t.kind() {
            ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap_or_else(|| tcx.mk_args(&[])); let _ = write!(o, ",\"fn\":{}", self.callee(*d, a, te)); }
            _ => {
                if let Const::Unevaluated(u, _) = c {
                    if u.promoted.is_none() { let _ = write!(o, ",\"name\":{}", q(&self.path(u.def))); }
                    else { let _ = write!(o, ",\"prom\":{}", u.promoted.unwrap().as_usize()); }
                }
                let prom = matches!(c, Const::Unevaluated(u, _) if u.promoted.is_some());
                let generic = if prom { c.has_escaping_bound_vars() || t.has_param() } else { c.has_param() || c.has_escaping_bound_vars() };
                if !generic {
                    match c.eval(tcx, te, span) {
                        Ok(v) => { let s = self.cval(v, t, te, 0); let _ = write!(o, ",\"v\":{}", s); }
                        Err(_) => o.push_str(",\"err\":1"),
                    }
                }
            }
        }
        o.push('}');
        o
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, te: TypingEnv<'tcx>, depth: usize) -> String {
        match v {
            ConstValue::ZeroSized => self.zst(t),
            ConstValue::Scalar(Scalar::Int(i)) => self.scalar_int(i.to_bits(i.size()), i.size(), t, te),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                self.pointee(prov.alloc_id(), off, t, None, te, depth)
            }
            ConstValue::Slice { alloc_id, meta } => self.pointee(alloc_id, Size::ZERO, t, Some(meta), te, depth),
            ConstValue::Indirect { alloc_id, offset } => self.read(alloc_id, offset, t, te, depth),
        }
    }
    fn zst(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) if d.is_struct() => format!("{{\"adt\":{},\"var\":{},\"f\":[]}}", q(&self.path(d.did())), q(d.non_enum_variant().name.as_str())),
            ty::Adt(d, _) if d.is_enum() && d.variants().len() == 1 => format!("{{\"adt\":{},\"var\":{},\"f\":[]}}", q(&self.path(d.did())), q(d.variant(VariantIdx::from_u32(0)).name.as_str())),
            ty::Array(..) => "[]".into(),
            _ => "{\"unit\":1}".into(),
        }
    }
    fn scalar_int(&mut self, bits: u128, size: Size, t: Ty<'tcx>, te: TypingEnv<'tcx>) -> String {
        match t.kind() {
            ty::Bool => if bits != 0 { "true".into() } else { "false".into() },
            ty::Char => format!("{{\"char\":{}}}", bits),
            ty::Int(_) => {
                let sh = 128 - size.bits();
                let x = ((bits << sh) as i128) >> sh;
                format!("{}", x)
            }
            ty::Uint(_) => format!("{}", bits),
            ty::Float(_) => format!("{{\"fbits\":{}}}", bits),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                // a scalar-layout aggregate: lay the bytes out and read them back
                let n = size.bytes() as usize;
                let bytes = bits.to_le_bytes()[..n].to_vec();
                self.read_bytes(&bytes, t, te)
            }
            _ => format!("{{\"bits\":{}}}", bits),
        }
    }
    fn read_bytes(&mut self, bytes: &[u8], t: Ty<'tcx>, te: TypingEnv<'tcx>) -> String {
        self.rd(&|o, n| bytes.get(o..o + n).map(|x| x.to_vec()), &|_| None, 0, t, te, 0)
    }
    fn read(&mut self, id: AllocId, off: Size, t: Ty<'tcx>, te: TypingEnv<'tcx>, depth: usize) -> String {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let get = |o: usize, n: usize| if o + n <= a.len() { Some(a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n).to_vec()) } else { None };
                let ptr = |o: usize| a.provenance().get_ptr(Size::from_bytes(o as u64)).map(|p| p.alloc_id());
                self.rd(&get, &ptr, off.bytes() as usize, t, te, depth)
            }
            GlobalAlloc::Static(d) => format!("{{\"static\":{}}}", q(&self.path(d))),
            _ => "{\"opaque\":1}".into(),
        }
    }
    fn pointee(&mut self, id: AllocId, off: Size, t: Ty<'tcx>, meta: Option<u64>, te: TypingEnv<'tcx>, depth: usize) -> String {
        if depth > 6 { return "{\"deep\":1}".into(); }
        let inner = match t.kind() { ty::Ref(_, i, _) | ty::RawPtr(i, _) => *i, ty::Adt(d, a) if d.is_box() => a.type_at(0), _ => return "{\"ptr\":1}".into() };
        if let GlobalAlloc::Static(d) = self.tcx.global_alloc(id) { return format!("{{\"static\":{}}}", q(&self.path(d))); }
        match (inner.kind(), meta) {
            (ty::Str, Some(n)) => {
                if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(id) {
                    let o = off.bytes() as usize;
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize).to_vec();
                    return match String::from_utf8(b) { Ok(s) => format!("{{\"str\":{}}}", q(&s)), Err(_) => "{\"opaque\":1}".into() };
                }
                "{\"opaque\":1}".into()
            }
            (ty::Slice(e), Some(n)) => self.seq(id, off, *e, n, te, depth),
            (_, None) => format!("{{\"ref\":{}}}", self.read(id, off, inner, te, depth + 1)),
            _ => "{\"opaque\":1}".into(),
        }
    }
    fn seq(&mut self, id: AllocId, off: Size, e: Ty<'tcx>, n: u64, te: TypingEnv<'tcx>, depth: usize) -> String {
        if n > 4096 {
            let mut h: u64 = 0xcbf29ce484222325;
            if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(id) {
                let a = m.inner();
                let o = off.bytes() as usize;
                if e == self.tcx.types.u8 && o + n as usize <= a.len() { for b in a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize) { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); } }
            }
            return format!("{{\"long\":{},\"fnv\":\"{:x}\"}}", n, h);
        }
        let Ok(l) = self.tcx.layout_of(te.as_query_input(e)) else { return "{\"opaque\":1}".into() };
        list(0..n, |i| self.read(id, off + l.size * i, e, te, depth + 1))
    }
    fn rd(&mut self, get: &dyn Fn(usize, usize) -> Option<Vec<u8>>, ptr: &dyn Fn(usize) -> Option<AllocId>, off: usize, t: Ty<'tcx>, te: TypingEnv<'tcx>, depth: usize) -> String {
        if depth > 12 { return "{\"deep\":1}".into(); }
        let tcx = self.tcx;
        let Ok(l) = tcx.layout_of(te.as_query_input(t)) else { return "{\"opaque\":1}".into() };
        let int = |o: usize, n: usize| -> Option<u128> { let b = get(o, n)?; let mut x = [0u8; 16]; x[..n].copy_from_slice(&b); Some(u128::from_le_bytes(x)) };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => match int(off, l.size.bytes() as usize) { Some(b) => self.scalar_int(b, l.size, t, te), None => "{\"opaque\":1}".into() },
            ty::Ref(_, inner, _) => {
                let Some(id) = ptr(off) else { return "{\"ptr\":1}".into() };
                let Some(o) = int(off, 8) else { return "{\"opaque\":1}".into() };
                let meta = if matches!(inner.kind(), ty::Str | ty::Slice(_)) { int(off + 8, 8).map(|x| x as u64) } else { None };
                self.pointee(id, Size::from_bytes(o as u64), t, meta, te, depth + 1)
            }
            ty::Tuple(ts) => list(ts.iter().enumerate(), |(i, ft)| { let o = l.fields.offset(i).bytes() as usize; self.rd(get, ptr, off + o, ft, te, depth + 1) }),
            ty::Array(e, _) => {
                let n = match l.fields { rustc_abi::FieldsShape::Array { count, .. } => count, _ => 0 };
                if n > 4096 { return format!("{{\"long\":{}}}", n); }
                let Ok(el) = tcx.layout_of(te.as_query_input(*e)) else { return "{\"opaque\":1}".into() };
                let sz = el.size.bytes() as usize;
                list(0..n as usize, |i| self.rd(get, ptr, off + i * sz, *e, te, depth + 1))
            }
            ty::FnDef(..) => "{\"unit\":1}".into(),
            ty::Pat(base, _) => self.rd(get, ptr, off, *base, te, depth + 1),
            ty::Adt(d, a) if d.is_struct() || d.is_enum() => {
                self.note_adts(t);
                let vi = match &l.variants {
                    Variants::Empty => return "{\"opaque\":1}".into(),
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let ts = tag.primitive().size(&tcx);
                        let to = l.fields.offset(tag_field.as_usize()).bytes() as usize;
                        let n = ts.bytes() as usize;
                        let isptr = ptr(off + to).is_some();
                        let Some(tagv) = int(off + to, n) else { return "{\"opaque\":1}".into() };
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                for (v, dv) in d.discriminants(tcx) { let m = if n >= 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 }; if dv.val & m == tagv & m { r = Some(v); } }
                                match r { Some(v) => v, None => return "{\"opaque\":1}".into() }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if isptr { *untagged_variant } else {
                                    let m = if n >= 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
                                    let rel = tagv.wrapping_sub(*niche_start) & m;
                                    let (lo, hi) = (niche_variants.start.as_u32() as u128, niche_variants.last.as_u32() as u128);
                                    if rel <= hi - lo { VariantIdx::from_u32((lo + rel) as u32) } else { *untagged_variant }
                                }
                            }
                        }
                    }
                };
                let var = d.variant(vi);
                let vl = match &l.variants { Variants::Multiple { .. } => { let cx = ty::layout::LayoutCx::new(tcx, te); l.for_variant(&cx, vi) } _ => l };
                let fs = list(var.fields.iter_enumerated(), |(i, f): (FieldIdx, _)| {
                    let ft = tcx.normalize_erasing_regions(te, f.ty(tcx, a));
                    let o = vl.fields.offset(i.as_usize()).bytes() as usize;
                    format!("[{},{}]", q(f.name.as_str()), self.rd(get, ptr, off + o, ft, te, depth + 1))
                });
                format!("{{\"adt\":{},\"var\":{},\"vi\":{},\"f\":{}}}", q(&self.path(d.did())), q(var.name.as_str()), vi.as_usize(), fs)
            }
            _ => "{\"opaque\":1}".into(),
        }
    }
    fn want_foreign(&self, d: DefId) -> bool {
        // std bodies worth following: small combinators (the abstract interpreter models the rest)
        if self.tcx.is_closure_like(d) { return self.want_foreign(self.tcx.typeck_root_def_id(d)); }
        let p = self.path(d);
        let p = p.trim_start_matches("<impl ");
        for m in ["option::", "result::", "cmp::", "ops::control_flow", "ops::try_trait", "bool::", "convert::"] {
            for c in ["std::", "core::"] { if p.starts_with(&format!("{}{}", c, m)) { return true; } }
        }
        p.starts_with("<std::option::") || p.starts_with("<std::result::") || p.starts_with("<std::ops::ControlFlow")
    }
    fn push(&mut self, d: DefId, a: GenericArgsRef<'tcx>) {
        if a.has_param() || a.has_escaping_bound_vars() || a.has_aliases() { return; }
        let a = self.tcx.erase_and_anonymize_regions(a);
        if !d.is_local() && !self.want_foreign(d) { return; }
        if self.seen.insert((d, a)) { self.queue.push_back((d, a)); }
    }
    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, te: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"p\":{}", q(&self.path(d)));
        let a = tcx.erase_and_anonymize_regions(a);
        let a = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(a)).unwrap_or(a);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", q(&self.path(tr)));
            if a.len() > 0 { if let Some(t) = a[0].as_type() { let s = self.ty(t); let _ = write!(o, ",\"self\":{}", q(&s)); } }
        }
        if tcx.is_intrinsic(d, rustc_span::sym::abort) {}
        let args: Vec<String> = a.iter().filter(|x| x.as_region().is_none()).map(|x| match x.as_type() { Some(t) => q(&self.ty(t)), None => q(&format!("{}", x)) }).collect();
        if !args.is_empty() { let _ = write!(o, ",\"a\":[{}]", args.join(",")); }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, te, d, a) {
                match i.def {
                    InstanceKind::Item(id) => {
                        let k = self.key(id, i.args);
                        let _ = write!(o, ",\"i\":{},\"ip\":{}", q(&k), q(&self.path(id)));
                        self.push(id, i.args);
                    }
                    InstanceKind::Virtual(..) => o.push_str(",\"virt\":1"),
                    InstanceKind::Intrinsic(_) => o.push_str(",\"intr\":1"),
                    InstanceKind::Shim(s) => {
                        match s {
                            ty::ShimKind::ClosureOnce { closure, .. } => {
                                // FnOnce::call_once on a closure value: same body
                                if let Some(t) = i.args[0].as_type() { if let ty::Closure(cd, ca) = t.kind() { let k = self.key(*cd, ca); let _ = write!(o, ",\"i\":{},\"ip\":{},\"once\":1", q(&k), q(&self.path(closure))); self.push(*cd, ca); } }
                            }
                            other => { let n = format!("{:?}", other); let n = n.split('(').next().unwrap_or("").to_string(); let _ = write!(o, ",\"shim\":{}", q(&n)); }
                        }
                    }
                    #[allow(unreachable_patterns)]
                    _ => {}
                }
            }
        } else if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push_str(",\"ctor\":1");
        }
        o.push('}');
        o
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, te: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, b, te)),
            Rvalue::Repeat(o, n) => { let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()); format!("[\"rep\",{},{}]", self.operand(o, b, te), n) }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", if matches!(k, BorrowKind::Mut { .. }) { 1 } else { 0 }, self.place(p, b)),
            Rvalue::RawPtr(_, p) => format!("[\"addr\",{}]", self.place(p, b)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, self.tcx);
                let from = self.ty(from);
                let to = self.ty(*t);
                let mut extra = String::new();
                if let Operand::Constant(c) = o { if let ty::FnDef(d, a) = c.const_.ty().kind() { if let Some(a) = a.no_bound_vars() { let _ = self.callee(*d, a, te); } } }
                if let CastKind::PointerCoercion(..) = k { extra = String::new(); }
                format!("[\"cast\",{},{},{},{}{}]", q(&format!("{:?}", k).split('(').next().unwrap_or("").to_string()), self.operand(o, b, te), q(&from), q(&to), extra)
            }
            Rvalue::BinaryOp(op, x) => { let t = x.0.ty(&b.local_decls, self.tcx); let t = self.ty(t); format!("[\"bin\",{},{},{},{}]", q(&format!("{:?}", op)), self.operand(&x.0, b, te), self.operand(&x.1, b, te), q(&t)) }
            Rvalue::UnaryOp(op, x) => { let t = x.ty(&b.local_decls, self.tcx); let t = self.ty(t); format!("[\"un\",{},{},{}]", q(&format!("{:?}", op)), self.operand(x, b, te), q(&t)) }
            Rvalue::Discriminant(p) => { let t = p.ty(&b.local_decls, self.tcx).ty; let t = self.ty(t); format!("[\"discr\",{},{}]", self.place(p, b), q(&t)) }
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        self.note_adts(t);
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names = match active { Some(f) => format!("[{}]", q(var.fields[*f].name.as_str())), None => list(var.fields.iter(), |f| q(f.name.as_str())) };
                        format!("[\"adt\",{},{},{},{}]", q(&self.path(*d)), q(var.name.as_str()), v.as_usize(), names)
                    }
                    AggregateKind::Closure(d, a) | AggregateKind::Coroutine(d, a) | AggregateKind::CoroutineClosure(d, a) => {
                        self.push(*d, a);
                        let k = self.key(*d, a);
                        let tag = if self.tcx.is_coroutine(*d) { "coroutine" } else { "closure" };
                        format!("[\"{}\",{},{}]", tag, q(&k), q(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, list(ops.iter(), |o| self.operand(o, b, te)))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, b)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&self.path(*d))),
            _ => "[\"other\"]".to_string(),
        }
    }
    fn uw(&self, u: &UnwindAction) -> String { match u { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".into() } }
    fn body(&mut self, b: &Body<'tcx>, te: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
                else { let s = self.place(p, b); dbg.push(format!("[{},{}]", q(v.name.as_str()), s)); }
            }
        }
        let locals = list(b.local_decls.iter_enumerated(), |(i, d)| {
            let t = self.ty(d.ty);
            match names.get(&i.as_usize()) { Some(n) => format!("[{},{}]", q(&t), q(n)), None => format!("[{}]", q(&t)) }
        });
        let blocks = list(b.basic_blocks.iter(), |bb| {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        let l = self.span(s.source_info.span).1;
                        let pl = self.place(p, b);
                        let rv = self.rvalue(r, b, te);
                        st.push(format!("[\"=\",{},{},{}]", pl, rv, l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => { let pl = self.place(place, b); st.push(format!("[\"setd\",{},{}]", pl, variant_index.as_usize())); }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = t.source_info.span;
            let line = self.span(sp).1;
            let mac = self.macro_of(sp);
            let mut o = String::from("{");
            match &t.kind {
                TerminatorKind::Goto { target, .. } => { let _ = write!(o, "\"k\":\"goto\",\"t\":{}", target.as_usize()); }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dts = self.ty(dt);
                    let _ = write!(o, "\"k\":\"switch\",\"d\":{},\"ty\":{},\"v\":{},\"o\":{}", self.operand(discr, b, te), q(&dts), list(targets.iter(), |(v, t)| format!("[{},{}]", v, t.as_usize())), targets.otherwise().as_usize());
                }
                TerminatorKind::Return => o.push_str("\"k\":\"ret\""),
                TerminatorKind::Unreachable => o.push_str("\"k\":\"unreach\""),
                TerminatorKind::UnwindResume => o.push_str("\"k\":\"resume\""),
                TerminatorKind::UnwindTerminate(_) => o.push_str("\"k\":\"abort\""),
                TerminatorKind::Drop { place, target, unwind, .. } => { let pt = place.ty(&b.local_decls, tcx).ty; let pt = self.ty(pt); let _ = write!(o, "\"k\":\"drop\",\"p\":{},\"t\":{},\"u\":{},\"ty\":{}", self.place(place, b), target.as_usize(), self.uw(unwind), q(&pt)); }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() { ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap_or_else(|| tcx.mk_args(&[])); format!("\"f\":{}", self.callee(*d, a, te)) } _ => format!("\"fo\":{}", self.operand(func, b, te)) },
                        _ => format!("\"fo\":{}", self.operand(func, b, te)),
                    };
                    let _ = write!(o, "\"k\":\"call\",{},\"args\":{},\"d\":{},\"t\":{},\"u\":{}", f, list(args.iter(), |a| self.operand(&a.node, b, te)), self.place(destination, b), target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), self.uw(unwind));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg { AssertKind::BoundsCheck { .. } => "bounds".to_string(), AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op), AssertKind::OverflowNeg(_) => "overflow:Neg".into(), AssertKind::DivisionByZero(_) => "div0".into(), AssertKind::RemainderByZero(_) => "rem0".into(), _ => "other".into() };
                    let _ = write!(o, "\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{},\"u\":{}", self.operand(cond, b, te), expected, q(&m), target.as_usize(), self.uw(unwind));
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => { let _ = write!(o, "\"k\":\"yield\",\"v\":{},\"t\":{},\"d\":{},\"u\":{}", self.operand(value, b, te), resume.as_usize(), self.place(resume_arg, b), drop.map(|t| t.as_usize().to_string()).unwrap_or("null".into())); }
                TerminatorKind::FalseEdge { real_target, .. } => { let _ = write!(o, "\"k\":\"goto\",\"t\":{}", real_target.as_usize()); }
                TerminatorKind::FalseUnwind { real_target, .. } => { let _ = write!(o, "\"k\":\"goto\",\"t\":{}", real_target.as_usize()); }
                TerminatorKind::CoroutineDrop => o.push_str("\"k\":\"resume\""),
                _ => o.push_str("\"k\":\"other\""),
            }
            let _ = write!(o, ",\"l\":{}", line);
            if let Some(m) = mac { let _ = write!(o, ",\"m\":{}", q(&m)); }
            o.push('}');
            let c = if bb.is_cleanup { ",1" } else { "" };
            format!("[[{}],{}{}]", st.join(","), o, c)
        });
        format!("\"argc\":{},\"locals\":{},\"dbg\":[{}],\"blocks\":{}", b.arg_count, locals, dbg.join(","), blocks)
    }
    fn derived_foreign(&self, d: LocalDefId) -> bool {
        let mut cur = d.to_def_id();
        loop {
            if matches!(self.tcx.def_kind(cur), DefKind::Impl { .. }) {
                let s = self.tcx.def_span(cur);
                if let ExpnKind::Macro(MacroKind::Derive, _) = s.ctxt().outer_expn_data().kind {
                    if let Some(tr) = self.tcx.impl_opt_trait_ref(cur) {
                        let c = self.tcx.crate_name(tr.skip_binder().def_id.krate);
                        let c = c.as_str();
                        // the wire names of the JSON interfaces: what is written, and which names are read
                        if c.starts_with("serde") && self.tcx.crate_name(d.to_def_id().krate).as_str() == "snapchain" {
                            let n = self.tcx.opt_item_name(d.to_def_id());
                            let n = n.as_ref().map(|x| x.as_str()).unwrap_or("");
                            return n != "serialize" && n != "visit_str";
                        }
                        return !(c == "core" || c == "std" || c == "alloc");
                    }
                }
            }
            match self.tcx.opt_parent(cur) { Some(p) => cur = p, None => return false }
        }
    }
    fn emit_fn(&mut self, key: &str, did: DefId, args: Option<GenericArgsRef<'tcx>>, b: &Body<'tcx>, proms: &[Body<'tcx>], te: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let (file, line) = self.span(tcx.def_span(did));
        let end = self.span(b.span.shrink_to_hi()).1;
        let kind = if tcx.is_coroutine(did) { "coroutine" } else if tcx.is_closure_like(did) { "closure" } else { match tcx.def_kind(did) { DefKind::Fn | DefKind::AssocFn => "fn", DefKind::Const { .. } | DefKind::AssocConst { .. } => "const", DefKind::Static { .. } => "static", _ => "other" } };
        let mut o = format!("{{\"r\":\"fn\",\"key\":{},\"path\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"end\":{}", q(key), q(&self.path(did)), kind, q(&file), line, end);
        if tcx.is_closure_like(did) { let _ = write!(o, ",\"parent\":{}", q(&self.path(tcx.parent(did)))); }
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            if let Some(i) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                let _ = write!(o, ",\"impl\":{}", q(&st));
                if let Some(tr) = tcx.impl_opt_trait_ref(i) { let _ = write!(o, ",\"trait\":{}", q(&self.path(tr.skip_binder().def_id))); let f = with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", tr.skip_binder().print_only_trait_path()))); let _ = write!(o, ",\"traitref\":{}", q(&f)); }
            } else if let Some(tr) = tcx.trait_of_assoc(did) { let _ = write!(o, ",\"traitdef\":{}", q(&self.path(tr))); }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let v = tcx.visibility(did).is_public();
            let _ = write!(o, ",\"pub\":{},\"async\":{}", v, tcx.asyncness(did).is_async());
            if did.is_local() {
                let params: Vec<String> = tcx.fn_arg_idents(did).iter().map(|n| n.map(|n| q(n.name.as_str())).unwrap_or("null".into())).collect();
                let _ = write!(o, ",\"params\":[{}]", params.join(","));
            }
        }
        if args.is_none() { o.push_str(",\"poly\":1"); }
        if !did.is_local() { o.push_str(",\"ext\":1"); }
        o.push(',');
        let s = self.body(b, te);
        o.push_str(&s);
        if !proms.is_empty() { let ps = list(proms.iter(), |p| format!("{{{}}}", self.body(p, te))); let _ = write!(o, ",\"proms\":{}", ps); }
        o.push_str("}\n");
        self.nbodies += 1;
        let _ = self.out.write_all(o.as_bytes());
    }
    fn emit_adts(&mut self) {
        while let Some(d) = self.adt_queue.pop() {
            let def = self.tcx.adt_def(d);
            let discs: HashMap<VariantIdx, u128> = if def.is_enum() { def.discriminants(self.tcx).map(|(v, d)| (v, d.val)).collect() } else { HashMap::new() };
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let local = d.is_local();
            let (file, line) = if local { self.span(self.tcx.def_span(d)) } else { (String::new(), 0) };
            let vs = list(def.variants().iter_enumerated(), |(i, v)| {
                let fs = list(v.fields.iter(), |f| { let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); let ts = if local { self.ty(t) } else { with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t))) }; format!("[{},{}]", q(f.name.as_str()), q(&ts)) });
                format!("{{\"n\":{},\"d\":{},\"f\":{}}}", q(v.name.as_str()), discs.get(&i).map(|x| x.to_string()).unwrap_or("null".into()), fs)
            });
            let o = format!("{{\"r\":\"adt\",\"path\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"variants\":{}}}\n", q(&self.path(d)), kind, q(&file), line, vs);
            let _ = self.out.write_all(o.as_bytes());
        }
    }
}

fn run(tcx: TyCtxt<'_>) {
    let Ok(dir) = std::env::var("VFACTS_DIR") else { return };
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let ct = format!("{:?}", tcx.crate_types().first()).to_lowercase().replace("some(", "").replace(')', "");
    let want = std::env::var("VFACTS_CRATES").unwrap_or("snapchain,snapchain_proto,fc".into());
    if !want.split(',').any(|x| x == krate) { return; }
    let tmp = format!("{}/{}-{}.tmp{}", dir, krate, ct, std::process::id());
    let fin = format!("{}/{}-{}.jsonl", dir, krate, ct);
    let f = std::fs::File::create(&tmp).expect("facts file");
    let mut cx = Cx { tcx, bodies: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), adts: HashSet::new(), adt_queue: Vec::new(), out: std::io::BufWriter::with_capacity(1 << 20, f), nbodies: 0 };
    let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    owners.sort_by_key(|d| d.local_def_index);
    // 1. take a copy of every body before the later passes consume it
    for &d in &owners {
        if cx.derived_foreign(d) { continue; }
        match tcx.def_kind(d) { DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {} _ => continue }
        if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) { continue; }
        let (b, p) = tcx.mir_promoted(d);
        let got = STORE.with(|s| s.borrow_mut().remove(&d));
        let (b, p) = match got {
            // SAFETY: taken from the provider of this very tcx; the arena outlives `cx`
            Some((b, p)) => unsafe { (std::mem::transmute::<Body<'static>, Body<'_>>(b), std::mem::transmute::<Vec<Body<'static>>, Vec<Body<'_>>>(p)) },
            None => { if b.is_stolen() || p.is_stolen() { eprintln!("mirfacts: body of {} is gone", cx.path(d.to_def_id())); std::process::exit(101); } (b.borrow().clone(), p.borrow().iter().cloned().collect()) }
        };
        cx.bodies.insert(d, (b, p));
    }
    // 2. every body as written (generic ones unspecialised)
    for &d in &owners {
        let Some((b, p)) = cx.bodies.get(&d).cloned() else { continue };
        let did = d.to_def_id();
        let te = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(did));
        let generic = { let g = tcx.generics_of(tcx.typeck_root_def_id(did)); let mut any = false; let mut g = Some(g); while let Some(x) = g { if x.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) || x.has_self { any = true; } g = x.parent.map(|p| tcx.generics_of(p)); } any };
        let b = tcx.erase_and_anonymize_regions(b);
        let p: Vec<_> = p.into_iter().map(|x| tcx.erase_and_anonymize_regions(x)).collect();
        if generic {
            let k = cx.path(did);
            cx.emit_fn(&k, did, None, &b, &p, te);
        } else {
            let b = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(b.clone())).unwrap_or(b);
            let p: Vec<_> = p.into_iter().map(|x| tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(x.clone())).unwrap_or(x)).collect();
            let k = cx.path(did);
            cx.emit_fn(&k, did, Some(tcx.mk_args(&[])), &b, &p, te);
        }
    }
    // 3. reached instantiations of generic bodies, and small std combinators
    let mut done: HashSet<String> = HashSet::new();
    while let Some((d, a)) = cx.queue.pop_front() {
        let k = cx.key(d, a);
        let te = TypingEnv::fully_monomorphized();
        if let Some(l) = d.as_local() {
            let root = tcx.typeck_root_def_id(d);
            let n = tcx.generics_of(root).count();
            let spec = a.iter().take(n).any(|x| x.as_region().is_none());
            if !spec || !done.insert(k.clone()) { continue; }
            let Some((b, p)) = cx.bodies.get(&l).cloned() else { continue };
            let b2 = ty::EarlyBinder::bind(tcx, tcx.erase_and_anonymize_regions(b)).instantiate(tcx, a).skip_norm_wip();
            let Ok(b2) = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(b2)) else { continue };
            let mut ps = Vec::new();
            for x in p { let x = ty::EarlyBinder::bind(tcx, tcx.erase_and_anonymize_regions(x)).instantiate(tcx, a).skip_norm_wip(); if let Ok(x) = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(x)) { ps.push(x); } }
            cx.emit_fn(&k, d, Some(a), &b2, &ps, te);
        } else {
            if !done.insert(k.clone()) || done.len() > 20000 { continue; }
            if !tcx.is_mir_available(d) { continue; }
            let b = tcx.optimized_mir(d).clone();
            let b2 = ty::EarlyBinder::bind(tcx, b).instantiate(tcx, a).skip_norm_wip();
            let Ok(b2) = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(b2)) else { continue };
            cx.emit_fn(&k, d, Some(a), &b2, &[], te);
        }
    }
    for d in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) && cx.adts.insert(d.to_def_id()) { cx.adt_queue.push(d.to_def_id()); }
    }
    cx.emit_adts();
    let n = cx.nbodies;
    let _ = cx.out.write_all(format!("{{\"r\":\"end\",\"crate\":{},\"bodies\":{}}}\n", q(&krate), n).as_bytes());
    let _ = cx.out.flush();
    drop(cx);
    std::fs::rename(&tmp, &fin).expect("facts rename");
}

thread_local! { static STORE: std::cell::RefCell<HashMap<LocalDefId, (Body<'static>, Vec<Body<'static>>)>> = std::cell::RefCell::new(HashMap::new()); }
type Prov = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> (&'tcx rustc_data_structures::steal::Steal<Body<'tcx>>, &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>);
static ORIG: std::sync::OnceLock<Prov> = std::sync::OnceLock::new();
fn keep_promoted<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> (&'tcx rustc_data_structures::steal::Steal<Body<'tcx>>, &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>) {
    let r = (ORIG.get().unwrap())(tcx, d);
    let b = r.0.borrow().clone();
    let p: Vec<Body<'tcx>> = r.1.borrow().iter().cloned().collect();
    // SAFETY: only read back in `run`, under the same tcx
    let v = unsafe { (std::mem::transmute::<Body<'tcx>, Body<'static>>(b), std::mem::transmute::<Vec<Body<'tcx>>, Vec<Body<'static>>>(p)) };
    STORE.with(|s| s.borrow_mut().insert(d, v));
    r
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.override_queries = Some(|_, p| { let _ = ORIG.set(p.queries.mir_promoted); p.queries.mir_promoted = keep_promoted; });
    }
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        run(tcx);
        STORE.with(|s| s.borrow_mut().clear());
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
