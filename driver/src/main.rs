// MIR fact extractor: a rustc driver that compiles the crate under analysis as
// cargo would, and dumps its (resolved, type-checked) MIR as JSON.  It is a pure
// extractor: no rule lives here.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    inst_json: Vec<String>,
    ninst: usize,
}

const BODY_OK: &[&str] = &[
    "core::option::", "core::result::", "core::ops::control_flow", "core::ops::function", "core::ops::try_trait",
    "core::ops::range", "core::ops::bit", "core::ops::arith", "core::convert", "core::cmp", "core::mem::replace", "core::mem::take", "core::mem::swap",
    "core::clone", "core::tuple", "core::bool", "core::iter", "core::num", "std::ops", "core::borrow", "core::array",
    "<core::option", "<core::result", "<core::ops", "<core::iter", "core::default", "<bitflags", "bitflags::",
    "alloc::boxed", "core::any",
];

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let s = esc(&format!("{t}"));
        let tcx = self.tcx;
        let mut o = format!("{{\"s\":{s}");
        match t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(it) => { let _ = write!(o, ",\"k\":\"int\",\"bits\":{}", it.bit_width().unwrap_or(64)); }
            ty::Uint(it) => { let _ = write!(o, ",\"k\":\"uint\",\"bits\":{}", it.bit_width().unwrap_or(64)); }
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Ref(_, inner, m) => {
                let x = self.ty(*inner, env);
                let _ = write!(o, ",\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), x);
            }
            ty::RawPtr(inner, m) => {
                let x = self.ty(*inner, env);
                let _ = write!(o, ",\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), x);
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x, env).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"el\":[{}]", v.join(","));
            }
            ty::Array(el, n) => {
                let x = self.ty(*el, env);
                let n = n.try_to_target_usize(tcx);
                let _ = write!(o, ",\"k\":\"array\",\"el\":{},\"n\":{}", x, n.map(|x| x as i64).unwrap_or(-1));
            }
            ty::Slice(el) => {
                let x = self.ty(*el, env);
                let _ = write!(o, ",\"k\":\"slice\",\"el\":{}", x);
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x, env).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"path\":{},\"el\":[{}]", esc(&tcx.def_path_str(*d)), ups.join(","));
            }
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let path = tcx.def_path_str(def.did());
                let _ = write!(o, ",\"k\":\"adt\",\"path\":{},\"adt\":\"{}\",\"local\":{},\"args\":[", esc(&path), kind, def.did().is_local());
                let v: Vec<String> = args.types().map(|x| self.ty(x, env).to_string()).collect();
                o.push_str(&v.join(","));
                o.push_str("],\"variants\":[");
                let krate = tcx.crate_name(def.did().krate);
                let expand = def.did().is_local() || matches!(krate.as_str(), "core" | "alloc" | "std");
                if expand {
                    let mut first = true;
                    for (vi, v) in def.variants().iter_enumerated() {
                        if !first { o.push(','); }
                        first = false;
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        let _ = write!(o, "{{\"name\":{},\"discr\":\"{}\",\"fields\":[", esc(v.name.as_str()), discr);
                        let mut ff = true;
                        for f in v.fields.iter() {
                            if !ff { o.push(','); }
                            ff = false;
                            let ft = f.ty(tcx, args);
                            let ft = tcx.try_normalize_erasing_regions(env, ft).ok();
                            let fts = match ft { Some(x) => self.ty(x, env).to_string(), None => "-1".into() };
                            let _ = write!(o, "[{},{}]", esc(f.name.as_str()), fts);
                        }
                        o.push_str("]}");
                    }
                }
                o.push(']');
                if def.repr().c() { o.push_str(",\"reprc\":true"); }
                if def.did().is_local() {
                    if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                        let mut offs = vec![];
                        if let Variants::Single { .. } = l.variants {
                            for fi in 0..l.fields.count() { offs.push(l.fields.offset(fi).bytes().to_string()); }
                        }
                        let _ = write!(o, ",\"size\":{},\"align\":{},\"offsets\":[{}]", l.size.bytes(), l.align.abi.bytes(), offs.join(","));
                    }
                }
            }
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            ty::Param(_) => o.push_str(",\"k\":\"param\""),
            ty::FnDef(d, _) => { let _ = write!(o, ",\"k\":\"fndef\",\"path\":{}", esc(&tcx.def_path_str(*d))); }
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        self.type_json[i] = o;
        i
    }

    fn def_name(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    fn wanted(&self, inst: &Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {
                if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) { return false; }
                if d.is_local() { return tcx.is_mir_available(d); }
                if !tcx.is_mir_available(d) { return false; }
                let k = tcx.crate_name(d.krate);
                if !matches!(k.as_str(), "core" | "alloc" | "std" | "bitflags") { return false; }
                let p = self.raw_path(d);
                BODY_OK.iter().any(|x| p.starts_with(x))
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::Clone(..)) | InstanceKind::Shim(ShimKind::FnPtr(..)) => true,
            _ => false,
        }
    }

    fn raw_path(&self, d: DefId) -> String {
        // crate::module::item, not affected by re-exports
        let k = self.tcx.crate_name(d.krate).to_string();
        format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn inst(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> i64 {
        if let Some(&i) = self.insts.get(&inst) { return i as i64; }
        if !self.wanted(&inst) { return -1; }
        let i = self.ninst;
        self.ninst += 1;
        self.insts.insert(inst, i);
        self.queue.push_back((inst, env, i));
        i as i64
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(o, "\"path\":{},\"raw\":{}", esc(&self.def_name(d)), esc(&self.raw_path(d)));
        let full = tcx.def_path_str_with_args(d, args);
        let _ = write!(o, ",\"full\":{}", esc(&full));
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.def_name(t)));
            if args.len() > 0 { if let Some(st) = args.types().next() { let x = self.ty(st, env); let _ = write!(o, ",\"selfty\":{}", x); } }
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let st = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(st)).unwrap_or(st);
            let x = self.ty(st, env);
            let _ = write!(o, ",\"selfty\":{}", x);
        }
        let _ = write!(o, ",\"name\":{}", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()));
        let targs: Vec<String> = args.types().map(|x| self.ty(x, env).to_string()).collect();
        let _ = write!(o, ",\"args\":[{}]", targs.join(","));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
            match Instance::try_resolve(tcx, env, d, args) {
                Ok(Some(inst)) => {
                    let rd = inst.def_id();
                    if rd != d {
                        let _ = write!(o, ",\"rpath\":{},\"rraw\":{}", esc(&self.def_name(rd)), esc(&self.raw_path(rd)));
                    }
                    match inst.def {
                        InstanceKind::Virtual(_, n) => { let _ = write!(o, ",\"virtual\":{}", n); }
                        InstanceKind::Intrinsic(_) => { o.push_str(",\"intrinsic\":true"); }
                        InstanceKind::Shim(k) => {
                            let nm = match k { ShimKind::ClosureOnce{..} => "closure_once", ShimKind::Clone(..) => "clone", ShimKind::FnPtr(..) => "fnptr", ShimKind::DropGlue(..) => "drop", _ => "other" };
                            let _ = write!(o, ",\"shim\":\"{}\"", nm);
                        }
                        _ => {}
                    }
                    let i = self.inst(inst, env);
                    if i >= 0 { let _ = write!(o, ",\"inst\":{}", i); }
                    else if tcx.opt_item_name(d).map(|n| n.as_str() != "next").unwrap_or(false) {
                        // an external generic function: which iterator implementations can it drive?
                        if let Some(it) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
                            let nextd = tcx.associated_items(it).in_definition_order().find(|x| x.name().as_str() == "next").map(|x| x.def_id);
                            let mut nx = vec![];
                            for t in args.types() {
                                if !matches!(t.kind(), ty::Adt(..)) { continue; }
                                use rustc_infer::infer::TyCtxtInferExt;
                                use rustc_trait_selection::infer::InferCtxtExt;
                                let (icx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                                if !icx.type_implements_trait(it, [t], penv).must_apply_modulo_regions() { continue; }
                                if let Some(nd) = nextd {
                                    if let Ok(Some(ni)) = Instance::try_resolve(tcx, env, nd, tcx.mk_args(&[t.into()])) {
                                        let x = self.inst(ni, env);
                                        if x >= 0 { let ts = self.ty(t, env); nx.push(format!("[{},{}]", ts, x)); }
                                    }
                                }
                            }
                            if !nx.is_empty() { let _ = write!(o, ",\"nexts\":[{}]", nx.join(",")); }
                        }
                    }
                }
                _ => o.push_str(",\"unresolved\":true"),
            }
        }
        o.push('}');
        o
    }

    // ---- constants
    fn decode(&mut self, alloc: AllocId, off: Size, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t, env);
        let opaque = format!("{{\"t\":{},\"o\":1}}", tid);
        if depth > 6 { return opaque; }
        let ga = match tcx.try_get_global_alloc(alloc) { Some(g) => g, None => return opaque };
        let mem = match ga {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(d) => return format!("{{\"t\":{},\"static\":{}}}", tid, esc(&self.def_name(d))),
            _ => return opaque,
        };
        let Ok(layout) = tcx.layout_of(env.as_query_input(t)) else { return opaque };
        let a = mem.inner();
        if layout.size.bytes() == 0 { return format!("{{\"t\":{},\"zst\":1}}", tid); }
        let rd_int = |o: Size, sz: Size| -> Option<u128> {
            let s = a.read_scalar(&tcx, AllocRange { start: o, size: sz }, false).ok()?;
            match s { Scalar::Int(i) => Some(i.to_bits(sz)), _ => None }
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match rd_int(off, layout.size) { Some(v) => format!("{{\"t\":{},\"i\":\"{}\"}}", tid, v), None => opaque }
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, et) in ts.iter().enumerate() { v.push(self.decode(alloc, off + layout.fields.offset(i), et, env, depth + 1)); }
                format!("{{\"t\":{},\"agg\":[{}],\"v\":0}}", tid, v.join(","))
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let el = tcx.layout_of(env.as_query_input(*et)).unwrap();
                if matches!(et.kind(), ty::Uint(ty::UintTy::U8)) {
                    let mut bytes = vec![];
                    for i in 0..n { match rd_int(off + Size::from_bytes(i), Size::from_bytes(1)) { Some(b) => bytes.push(b as u8), None => return opaque } }
                    let allsame = n > 64 && bytes.iter().all(|b| *b == bytes[0]);
                    if allsame { return format!("{{\"t\":{},\"fill\":{},\"n\":{}}}", tid, bytes[0], n); }
                    let l: Vec<String> = bytes.iter().map(|b| b.to_string()).collect();
                    return format!("{{\"t\":{},\"bytes\":[{}]}}", tid, l.join(","));
                }
                if n > 64 { return opaque; }
                let mut v = vec![];
                for i in 0..n { v.push(self.decode(alloc, off + Size::from_bytes(i * el.size.bytes()), *et, env, depth + 1)); }
                format!("{{\"t\":{},\"agg\":[{}],\"v\":0}}", tid, v.join(","))
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let ps = tcx.data_layout.pointer_size();
                let s = match a.read_scalar(&tcx, AllocRange { start: off, size: ps }, true) { Ok(s) => s, Err(_) => return opaque };
                if let Scalar::Ptr(p, _) = s {
                    let (prov, o2) = p.into_raw_parts();
                    let meta = if layout.size.bytes() == 2 * ps.bytes() { rd_int(off + ps, ps).map(|x| x as u64) } else { None };
                    let x = self.decode_ptr(prov.alloc_id(), o2, *inner, meta, env, depth + 1);
                    return format!("{{\"t\":{},\"ref\":{}}}", tid, x);
                }
                opaque
            }
            ty::Adt(def, args) if !def.is_union() => {
                let vi = match &layout.variants {
                    Variants::Single { index } => *index,
                    Variants::Empty => return opaque,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = layout.fields.offset(tag_field.as_usize());
                        let tsz = tag.size(&tcx);
                        let tv = match rd_int(off + to, tsz) { Some(v) => v, None => {
                            // niche in a pointer: non-null means the untagged variant
                            if let TagEncoding::Niche { untagged_variant, .. } = tag_encoding { let u = *untagged_variant; return self.decode_variant(alloc, off, t, u, env, depth, tid); }
                            return opaque } };
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut f = None;
                                for (v, d) in def.discriminants(tcx) { if tsz.truncate(d.val) == tv { f = Some(v); } }
                                match f { Some(v) => v, None => return opaque }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = tsz.truncate(tv.wrapping_sub(*niche_start));
                                let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                if rel <= cnt { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant }
                            }
                        }
                    }
                };
                let _ = args;
                self.decode_variant(alloc, off, t, vi, env, depth, tid)
            }
            _ => opaque,
        }
    }

    fn decode_variant(&mut self, alloc: AllocId, off: Size, t: Ty<'tcx>, vi: VariantIdx, env: TypingEnv<'tcx>, depth: usize, tid: usize) -> String {
        let tcx = self.tcx;
        let ty::Adt(def, args) = t.kind() else { return format!("{{\"t\":{},\"o\":1}}", tid) };
        let layout = tcx.layout_of(env.as_query_input(t)).unwrap();
        let cx = ty::layout::LayoutCx::new(tcx, env);
        let vl = layout.for_variant(&cx, vi);
        let mut v = vec![];
        for (i, f) in def.variant(vi).fields.iter().enumerate() {
            let ft = f.ty(tcx, args);
            let ft = match tcx.try_normalize_erasing_regions(env, ft) { Ok(x) => x, Err(_) => return format!("{{\"t\":{},\"o\":1}}", tid) };
            v.push(self.decode(alloc, off + vl.fields.offset(i), ft, env, depth + 1));
        }
        format!("{{\"t\":{},\"agg\":[{}],\"v\":{}}}", tid, v.join(","), vi.as_u32())
    }

    fn decode_ptr(&mut self, id: AllocId, off: Size, inner: Ty<'tcx>, meta: Option<u64>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let tid = self.ty(inner, env);
        match tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Static(d)) => format!("{{\"t\":{},\"static\":{}}}", tid, esc(&self.def_name(d))),
            Some(GlobalAlloc::Memory(m)) => {
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let is_bytes = matches!(inner.kind(), ty::Str) || matches!(inner.kind(), ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)));
                        let n = meta.unwrap_or(0);
                        if is_bytes && n < 4096 {
                            let a = m.inner();
                            let r = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..(off.bytes() + n) as usize);
                            if matches!(inner.kind(), ty::Str) { return format!("{{\"t\":{},\"str\":{}}}", tid, esc(&String::from_utf8_lossy(r))); }
                            let l: Vec<String> = r.iter().map(|b| b.to_string()).collect();
                            return format!("{{\"t\":{},\"bytes\":[{}]}}", tid, l.join(","));
                        }
                        format!("{{\"t\":{},\"o\":1}}", tid)
                    }
                    ty::Dynamic(..) => format!("{{\"t\":{},\"o\":1}}", tid),
                    _ => self.decode(id, off, inner, env, depth),
                }
            }
            _ => format!("{{\"t\":{},\"o\":1}}", tid),
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, span: rustc_span::Span, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t, env);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| tcx.mk_args(&[]));
            let f = self.fnref(*d, args, env);
            return format!("{{\"t\":{},\"fn\":{}}}", tid, f);
        }
        let mut name = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() { name = format!(",\"name\":{}", esc(&self.def_name(u.def))); }
        }
        let val = match c.eval(tcx, env, span) { Ok(v) => v, Err(_) => return format!("{{\"t\":{},\"o\":1,\"sym\":{}{}}}", tid, esc(&format!("{c}")), name) };
        let body = match val {
            ConstValue::ZeroSized => format!("{{\"t\":{},\"zst\":1", tid),
            ConstValue::Scalar(Scalar::Int(i)) => {
                match t.kind() {
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::RawPtr(..) => format!("{{\"t\":{},\"i\":\"{}\"", tid, i.to_bits(i.size())),
                    _ => {
                        // scalar-shaped ADT or tuple (newtype / fieldless enum): go through an allocation-free decode
                        let s = self.scalar_adt(i.to_bits(i.size()), i.size(), t, env);
                        s.trim_end_matches('}').to_string().clone() + &"}".repeat(s.len() - s.trim_end_matches('}').len() - 1)
                    }
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match t.kind() {
                    ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                        let x = self.decode_ptr(prov.alloc_id(), off, *inner, None, env, 0);
                        format!("{{\"t\":{},\"ref\":{}", tid, x)
                    }
                    _ => format!("{{\"t\":{},\"o\":1", tid),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                match t.kind() {
                    ty::Ref(_, inner, _) => { let x = self.decode_ptr(alloc_id, Size::ZERO, *inner, Some(meta), env, 0); format!("{{\"t\":{},\"ref\":{}", tid, x) }
                    _ => format!("{{\"t\":{},\"o\":1", tid),
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let s = self.decode(alloc_id, offset, t, env, 0);
                s[..s.len() - 1].to_string()
            }
        };
        format!("{}{}}}", body, name)
    }

    fn scalar_adt(&mut self, v: u128, sz: Size, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t, env);
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => format!("{{\"t\":{},\"i\":\"{}\"}}", tid, v),
            ty::Adt(def, args) => {
                let layout = match tcx.layout_of(env.as_query_input(t)) { Ok(l) => l, Err(_) => return format!("{{\"t\":{},\"o\":1}}", tid) };
                let vi = match &layout.variants {
                    Variants::Single { index } => *index,
                    Variants::Empty => return format!("{{\"t\":{},\"o\":1}}", tid),
                    Variants::Multiple { tag, tag_encoding, .. } => {
                        let tsz = tag.size(&tcx);
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut f = None;
                                for (x, d) in def.discriminants(tcx) { if tsz.truncate(d.val) == v { f = Some(x); } }
                                match f { Some(x) => x, None => return format!("{{\"t\":{},\"o\":1}}", tid) }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = tsz.truncate(v.wrapping_sub(*niche_start));
                                let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                if rel <= cnt { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant }
                            }
                        }
                    }
                };
                let mut out = vec![];
                for f in def.variant(vi).fields.iter() {
                    let ft = match tcx.try_normalize_erasing_regions(env, f.ty(tcx, args)) { Ok(x) => x, Err(_) => return format!("{{\"t\":{},\"o\":1}}", tid) };
                    let fl = tcx.layout_of(env.as_query_input(ft)).unwrap();
                    if fl.size.bytes() == 0 { let x = self.ty(ft, env); out.push(format!("{{\"t\":{},\"zst\":1}}", x)); }
                    else if fl.size == sz { out.push(self.scalar_adt(v, sz, ft, env)); }
                    else { let x = self.ty(ft, env); out.push(format!("{{\"t\":{},\"o\":1}}", x)); }
                }
                format!("{{\"t\":{},\"agg\":[{}],\"v\":{}}}", tid, out.join(","), vi.as_u32())
            }
            _ => format!("{{\"t\":{},\"o\":1}}", tid),
        }
    }

    // ---- bodies
    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => { let x = self.ty(t, env); format!("[\"f\",{},{}]", f.as_u32(), x) }
                ProjectionElem::Downcast(_, vi) => format!("[\"v\",{}]", vi.as_u32()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_u32(), v.join(","))
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p, env)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p, env)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(&c.const_, c.span, env)),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":{\"t\":0,\"i\":\"0\"}}".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, c) => { let n = c.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1); format!("[\"repeat\",{},{}]", self.operand(o, env), n) }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p, env), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p, env)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", { let mut q = *p; let _ = &mut q; self.place(&q, env) }, m.is_mut()),
            Rvalue::Cast(k, o, t) => {
                let tt = self.ty(*t, env);
                let kn = match k { CastKind::IntToInt => "int", CastKind::Transmute => "transmute", CastKind::PtrToPtr => "ptr", CastKind::PointerCoercion(..) => "coerce", _ => {
                    let s = format!("{k:?}"); if s.contains("BoxDeref") { "box" } else { "other" } } };
                format!("[\"cast\",\"{}\",{},{}]", kn, self.operand(o, env), tt)
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(&ops.0, env), self.operand(&ops.1, env)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, env)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|x| self.operand(x, env)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, af) => format!("[\"adt\",{},{},{}]", esc(&self.def_name(*d)), vi.as_u32(), af.map(|x: FieldIdx| x.as_u32() as i64).unwrap_or(-1)),
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance { def: InstanceKind::Item(*d), args };
                        let inst = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(inst)).unwrap_or(inst);
                        let i = self.inst(inst, env);
                        format!("[\"closure\",{},{}]", esc(&self.def_name(*d)), i)
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p, env)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.def_name(*d))),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, env)),
            #[allow(unreachable_patterns)]
            _ => "[\"other\"]".to_string(),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, id: usize) {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = match tcx.try_instantiate_mir_and_normalize_erasing_regions_compat(inst, env, raw) {
            Some(b) => b,
            None => { self.inst_json.push(format!("{{\"id\":{},\"fail\":true,\"path\":{}}}", id, esc(&self.def_name(inst.def_id())))); return; }
        };
        let d = inst.def_id();
        let mut o = String::new();
        let (file, line) = self.line(body.span);
        let kind = match inst.def { InstanceKind::Item(_) => "item", InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once", _ => "shim" };
        let isclosure = tcx.def_kind(d) == DefKind::Closure;
        let vis_pub = d.is_local() && !isclosure && tcx.visibility(d).is_public();
        let _ = write!(o, "{{\"id\":{},\"kind\":\"{}\",\"path\":{},\"raw\":{},\"full\":{},\"local\":{},\"pub\":{},\"closure\":{},\"file\":{},\"line\":{},\"argc\":{},\"spread\":{}",
            id, kind, esc(&self.def_name(d)), esc(&self.raw_path(d)), esc(&tcx.def_path_str_with_args(d, inst.args)), d.is_local(), vis_pub, isclosure, esc(&file), line, body.arg_count, body.spread_arg.map(|x| x.as_u32() as i64).unwrap_or(-1));
        if let Some(im) = tcx.trait_impl_of_assoc(d) {
            let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"impl_trait\":{},\"impl_self\":{}", esc(&self.def_name(tr.def_id)), esc(&format!("{}", tr.self_ty())));
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let _ = write!(o, ",\"impl_self\":{}", esc(&format!("{}", tcx.type_of(im).instantiate_identity().skip_norm_wip())));
        }
        let lt: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty, env).to_string()).collect();
        let _ = write!(o, ",\"locals\":[{}]", lt.join(","));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value { names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p, env))); }
        }
        let _ = write!(o, ",\"names\":[{}]", names.join(","));
        o.push_str(",\"blocks\":[");
        let mut fb = true;
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            if !fb { o.push(','); }
            fb = false;
            o.push_str("{\"s\":[");
            let mut fs = true;
            for s in &data.statements {
                let t = match &s.kind {
                    StatementKind::Assign(b) => format!("[\"=\",{},{},{}]", self.place(&b.0, env), self.rvalue(&b.1, env), self.line(s.source_info.span).1),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(place, env), variant_index.as_u32()),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_u32()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_u32()),
                    StatementKind::Intrinsic(b) => match &**b {
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!("[\"cno\",{},{},{}]", self.operand(&c.src, env), self.operand(&c.dst, env), self.operand(&c.count, env)),
                        _ => continue,
                    },
                    _ => continue,
                };
                if !fs { o.push(','); }
                fs = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            let t = data.terminator();
            let ln = self.line(t.source_info.span).1;
            let s = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ops = self.operand(discr, env);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let tt = self.ty(dt, env);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                    format!("[\"switch\",{},[{}],{},{},{}]", ops, v.join(","), targets.otherwise().as_u32(), ln, tt)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place, env), target.as_u32()),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = format!("{:?}", std::mem::discriminant(&**msg));
                    let _ = m;
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond, env), expected, target.as_u32(), ln)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let dst = self.place(destination, env);
                    format!("[\"call\",{},[{}],{},{},{}]", f, a.join(","), dst, target.map(|x| x.as_u32() as i64).unwrap_or(-1), ln)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                _ => "[\"stop\"]".to_string(),
            };
            o.push_str(&s);
            if data.is_cleanup { o.push_str(",\"cleanup\":true"); }
            o.push('}');
        }
        o.push_str("]}");
        self.inst_json.push(o);
    }
}

trait Compat<'tcx> {
    fn try_instantiate_mir_and_normalize_erasing_regions_compat(self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, raw: &'tcx Body<'tcx>) -> Option<Body<'tcx>>;
}
impl<'tcx> Compat<'tcx> for TyCtxt<'tcx> {
    fn try_instantiate_mir_and_normalize_erasing_regions_compat(self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, raw: &'tcx Body<'tcx>) -> Option<Body<'tcx>> {
        inst.try_instantiate_mir_and_normalize_erasing_regions(self, env, EarlyBinder::bind(self, raw.clone())).ok()
    }
}

struct Cb { out: String }

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: HashMap::new(), type_json: vec![], insts: HashMap::new(), queue: VecDeque::new(), inst_json: vec![], ninst: 0 };
        let mut nfn = 0usize;
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
            if !tcx.is_mir_available(d) { continue; }
            nfn += 1;
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let env = TypingEnv::post_analysis(tcx, d);
            let inst = Instance { def: InstanceKind::Item(d), args: tcx.erase_and_anonymize_regions(args) };
            cx.inst(inst, env);
        }
        while let Some((i, env, id)) = cx.queue.pop_front() { cx.body(i, env, id); }
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut s = String::new();
        let _ = write!(s, "{{\"crate\":{},\"nfn\":{},\"types\":[\n", esc(&krate), nfn);
        s.push_str(&cx.type_json.join(",\n"));
        s.push_str("\n],\"insts\":[\n");
        s.push_str(&cx.inst_json.join(",\n"));
        s.push_str("\n]}\n");
        std::fs::write(&self.out, s).expect("write facts");
        Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    // invoked by cargo as: mirdump <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if !want.is_empty() && crate_name == want && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Zalways-encode-mir".into());
        args.push("--cap-lints=allow".into());
        let mut cb = Cb { out };
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop))
    }
}
