// MIR fact extractor: a rustc driver injected with RUSTC_WORKSPACE_WRAPPER under
// `cargo +nightly check`.  For the crates named in PFPSA_CRATES it writes, after
// type checking, one JSON document with the MIR of every function (callees resolved
// through the type checker), ADT layouts, trait impls and evaluated constants.
// It contains no rule: the analysis is in ../analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            let k = self.tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
            // `<a::B as c::D>::f` or `a::b`
            format!("{}#{}", k, s)
        } else {
            s
        }
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        // Attribute macro-generated code to the user's line.
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", r)),
            o => format!("{:?}", o),
        };
        format!("{}:{}", f, l.line)
    }

    fn variant_json(&self, adt: ty::AdtDef<'tcx>, vi: rustc_abi::VariantIdx) -> String {
        let v = adt.variant(vi);
        format!(
            "{{\"adt\":{},\"variant\":{},\"vi\":{},\"fields\":{},\"enum\":{}}}",
            esc(&self.path(adt.did())),
            esc(v.name.as_str()),
            vi.as_u32(),
            arr(v.fields.iter().map(|f| esc(f.name.as_str()))),
            adt.is_enum()
        )
    }

    // ---- constants -------------------------------------------------------
    fn alloc_value(
        &self,
        te: TypingEnv<'tcx>,
        alloc: &mir::interpret::Allocation,
        off: u64,
        t: Ty<'tcx>,
        depth: u32,
    ) -> Option<String> {
        if depth > 12 {
            return None;
        }
        let tcx = self.tcx;
        let layout = tcx.layout_of(te.as_query_input(t)).ok()?;
        let read = |o: u64, sz: u64| -> Option<u128> {
            let r = alloc
                .read_scalar(
                    &tcx,
                    AllocRange { start: rustc_abi::Size::from_bytes(o), size: rustc_abi::Size::from_bytes(sz) },
                    false,
                )
                .ok()?;
            match r {
                Scalar::Int(i) => Some(i.to_bits(i.size())),
                _ => None,
            }
        };
        let readptr = |o: u64| -> Option<(rustc_middle::mir::interpret::AllocId, u64)> {
            let r = alloc
                .read_scalar(
                    &tcx,
                    AllocRange { start: rustc_abi::Size::from_bytes(o), size: rustc_abi::Size::from_bytes(8) },
                    true,
                )
                .ok()?;
            match r {
                Scalar::Ptr(p, _) => {
                    let (prov, o2) = p.into_raw_parts();
                    Some((prov.alloc_id(), o2.bytes()))
                }
                _ => None,
            }
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sz = layout.size.bytes();
                let v = read(off, sz)?;
                Some(self.int_json(t, v, sz))
            }
            ty::Array(el, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let es = tcx.layout_of(te.as_query_input(*el)).ok()?.size.bytes();
                if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
                    let mut b = Vec::new();
                    for i in 0..n {
                        b.push(read(off + i, 1)?.to_string());
                    }
                    return Some(format!("{{\"k\":\"bytes\",\"v\":{}}}", arr(b)));
                }
                if n > 4096 {
                    return None;
                }
                let mut v = Vec::new();
                for i in 0..n {
                    v.push(self.alloc_value(te, alloc, off + i * es, *el, depth + 1)?);
                }
                Some(format!("{{\"k\":\"array\",\"v\":{}}}", arr(v)))
            }
            ty::Tuple(ts) => {
                let mut v = Vec::new();
                for (i, e) in ts.iter().enumerate() {
                    let o = layout.fields.offset(i).bytes();
                    v.push(self.alloc_value(te, alloc, off + o, e, depth + 1)?);
                }
                Some(format!("{{\"k\":\"tuple\",\"v\":{}}}", arr(v)))
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    let (id, o) = readptr(off).or(None).unwrap_or_else(|| (alloc_dummy(), 0));
                    let len = read(off + 8, 8)? as u64;
                    if len == 0 {
                        return Some("{\"k\":\"str\",\"v\":\"\"}".to_string());
                    }
                    if id == alloc_dummy() {
                        return None;
                    }
                    let GlobalAlloc::Memory(m) = tcx.global_alloc(id) else { return None };
                    let bytes = m
                        .inner()
                        .inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + len) as usize);
                    Some(format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(bytes))))
                }
                ty::Slice(el) => {
                    let len = read(off + 8, 8)? as u64;
                    let es = tcx.layout_of(te.as_query_input(*el)).ok()?.size.bytes();
                    if len == 0 {
                        return Some(if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
                            "{\"k\":\"bytes\",\"v\":[]}".to_string()
                        } else {
                            "{\"k\":\"array\",\"v\":[]}".to_string()
                        });
                    }
                    let (id, o) = readptr(off)?;
                    let GlobalAlloc::Memory(m) = tcx.global_alloc(id) else { return None };
                    if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
                        let bytes = m
                            .inner()
                            .inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + len) as usize);
                        return Some(format!(
                            "{{\"k\":\"bytes\",\"v\":{}}}",
                            arr(bytes.iter().map(|b| b.to_string()))
                        ));
                    }
                    let mut v = Vec::new();
                    for i in 0..len {
                        v.push(self.alloc_value(te, m.inner(), o + i * es, *el, depth + 1)?);
                    }
                    Some(format!("{{\"k\":\"array\",\"v\":{}}}", arr(v)))
                }
                ty::Dynamic(..) => None,
                _ => {
                    let il = tcx.layout_of(te.as_query_input(*inner)).ok()?;
                    if il.is_zst() {
                        return self.zst_value(*inner);
                    }
                    let (id, o) = readptr(off)?;
                    match tcx.global_alloc(id) {
                        GlobalAlloc::Memory(m) => self.alloc_value(te, m.inner(), o, *inner, depth + 1),
                        GlobalAlloc::Static(d) => {
                            Some(format!("{{\"k\":\"static\",\"path\":{}}}", esc(&self.path(d))))
                        }
                        _ => None,
                    }
                }
            },
            ty::Adt(adt, args) => {
                if adt.is_struct() {
                    let mut v = Vec::new();
                    for (i, f) in adt.non_enum_variant().fields.iter().enumerate() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.normalize_erasing_regions(te, ft);
                        let o = layout.fields.offset(i).bytes();
                        v.push(self.alloc_value(te, alloc, off + o, ft, depth + 1)?);
                    }
                    return Some(format!(
                        "{{\"k\":\"adt\",\"v\":{},\"args\":{}}}",
                        self.variant_json(*adt, rustc_abi::VariantIdx::from_u32(0)),
                        arr(v)
                    ));
                }
                if adt.is_enum() {
                    // direct-tag enums and single-variant enums only
                    match &layout.variants {
                        rustc_abi::Variants::Single { index } => {
                            let v = adt.variant(*index);
                            if v.fields.is_empty() {
                                return Some(format!(
                                    "{{\"k\":\"adt\",\"v\":{},\"args\":[]}}",
                                    self.variant_json(*adt, *index)
                                ));
                            }
                            None
                        }
                        rustc_abi::Variants::Multiple {
                            tag,
                            tag_encoding: rustc_abi::TagEncoding::Direct,
                            tag_field,
                            variants,
                        } => {
                            let to = layout.fields.offset(tag_field.as_usize()).bytes();
                            let tv = read(off + to, tag.size(&tcx).bytes())?;
                            for (vi, d) in adt.discriminants(tcx) {
                                let mask = if tag.size(&tcx).bits() >= 128 {
                                    u128::MAX
                                } else {
                                    (1u128 << tag.size(&tcx).bits()) - 1
                                };
                                if d.val & mask == tv {
                                    let mut a = Vec::new();
                                    for (i, f) in adt.variant(vi).fields.iter().enumerate() {
                                        let ft = f.ty(tcx, args);
                                        let ft = tcx.normalize_erasing_regions(te, ft);
                                        let o = variants[vi].field_offsets
                                            [rustc_abi::FieldIdx::from_u32(i as u32)]
                                        .bytes();
                                        a.push(self.alloc_value(te, alloc, off + o, ft, depth + 1)?);
                                    }
                                    return Some(format!(
                                        "{{\"k\":\"adt\",\"v\":{},\"args\":{}}}",
                                        self.variant_json(*adt, vi),
                                        arr(a)
                                    ));
                                }
                            }
                            None
                        }
                        rustc_abi::Variants::Multiple {
                            tag,
                            tag_encoding:
                                rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start },
                            tag_field,
                            variants,
                        } => {
                            let to = layout.fields.offset(tag_field.as_usize()).bytes();
                            let sz = tag.size(&tcx).bytes();
                            // pointer niches: a pointer means the untagged variant
                            let vi = match read(off + to, sz) {
                                None => *untagged_variant,
                                Some(tv) => {
                                    let rel = tv.wrapping_sub(*niche_start);
                                    let max = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if rel <= max {
                                        rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            };
                            let mut a = Vec::new();
                            for (i, f) in adt.variant(vi).fields.iter().enumerate() {
                                let ft = f.ty(tcx, args);
                                let ft = tcx.normalize_erasing_regions(te, ft);
                                let o = variants[vi].field_offsets[rustc_abi::FieldIdx::from_u32(i as u32)].bytes();
                                a.push(self.alloc_value(te, alloc, off + o, ft, depth + 1)?);
                            }
                            Some(format!(
                                "{{\"k\":\"adt\",\"v\":{},\"args\":{}}}",
                                self.variant_json(*adt, vi),
                                arr(a)
                            ))
                        }
                        _ => None,
                    }
                } else {
                    None
                }
            }
            ty::FnDef(..) | ty::Closure(..) => self.zst_value(t),
            _ => None,
        }
    }

    fn zst_value(&self, t: Ty<'tcx>) -> Option<String> {
        match t.kind() {
            ty::FnDef(d, a) => Some(self.fndef(*d, a.skip_binder(), TypingEnv::fully_monomorphized())),
            ty::Closure(d, _) => Some(format!("{{\"k\":\"closure\",\"path\":{}}}", esc(&self.path(*d)))),
            ty::Tuple(ts) if ts.is_empty() => Some("{\"k\":\"unit\"}".into()),
            ty::Adt(adt, _) if adt.is_struct() && adt.non_enum_variant().fields.is_empty() => Some(format!(
                "{{\"k\":\"adt\",\"v\":{},\"args\":[]}}",
                self.variant_json(*adt, rustc_abi::VariantIdx::from_u32(0))
            )),
            ty::Array(el, n) if n.try_to_target_usize(self.tcx) == Some(0) => {
                Some(if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
                    "{\"k\":\"bytes\",\"v\":[]}".into()
                } else {
                    "{\"k\":\"array\",\"v\":[]}".into()
                })
            }
            _ => None,
        }
    }

    fn int_json(&self, t: Ty<'tcx>, v: u128, sz: u64) -> String {
        match t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"v\":{}}}", v != 0),
            ty::Char => format!(
                "{{\"k\":\"char\",\"v\":{}}}",
                esc(&char::from_u32(v as u32).map(|c| c.to_string()).unwrap_or_default())
            ),
            ty::Int(_) => {
                let bits = sz * 8;
                let sv = if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                    (v as i128) - (1i128 << bits)
                } else {
                    v as i128
                };
                format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", sv, esc(&self.tystr(t)))
            }
            _ => format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", v, esc(&self.tystr(t))),
        }
    }

    fn fndef(&self, d: DefId, args: GenericArgsRef<'tcx>, te: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut extra = String::new();
        if let DefKind::Ctor(_, _) = tcx.def_kind(d) {
            let vd = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(vd) {
                DefKind::Variant => {
                    let adt = tcx.adt_def(tcx.parent(vd));
                    (adt, adt.variant_index_with_id(vd))
                }
                _ => (tcx.adt_def(vd), rustc_abi::VariantIdx::from_u32(0)),
            };
            extra = format!(",\"ctor\":{}", self.variant_json(adt, vi));
        }
        let orig = self.path(d);
        let mut res = orig.clone();
        let mut rlocal = d.is_local();
        let mut virt = false;
        if tcx.def_kind(d) == DefKind::Fn || tcx.def_kind(d) == DefKind::AssocFn {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, te, d, args) {
                match i.def {
                    ty::InstanceKind::Item(r) => {
                        res = self.path(r);
                        rlocal = r.is_local();
                    }
                    ty::InstanceKind::Virtual(..) => virt = true,
                    _ => {}
                }
            }
        }
        format!(
            "{{\"k\":\"fn\",\"path\":{},\"orig\":{},\"local\":{},\"virtual\":{},\"args\":{},\"crate\":{}{}}}",
            esc(&res),
            esc(&orig),
            rlocal,
            virt,
            arr(args.iter().map(|a| esc(&with_no_trimmed_paths!(a.to_string())))),
            esc(tcx.crate_name(d.krate).as_str()),
            extra
        )
    }

    fn konst(&self, te: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return self.fndef(*d, a.skip_binder(), te);
        }
        let mut named = String::new();
        let mut prom = String::new();
        if let Const::Unevaluated(u, _) = &c.const_ {
            if let Some(p) = u.promoted {
                prom = format!(",\"promoted\":{}", esc(&format!("{}::promoted[{}]", self.path(u.def), p.as_u32())));
            } else {
                named = format!(",\"named\":{}", esc(&self.path(u.def)));
            }
        }
        let add = |s: String| -> String {
            let mut s = s;
            s.pop();
            format!("{}{}{}}}", s, named, prom)
        };
        if let Ok(v) = c.const_.eval(tcx, te, c.span) {
            match v {
                ConstValue::ZeroSized => {
                    if let Some(z) = self.zst_value(t) {
                        return add(z);
                    }
                }
                ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                        return add(self.int_json(t, i.to_bits(i.size()), i.size().bytes()));
                    }
                    ty::Adt(adt, _) if adt.is_enum() => {
                        let v = i.to_bits(i.size());
                        let mask = if i.size().bits() >= 128 { u128::MAX } else { (1u128 << i.size().bits()) - 1 };
                        for (vi, d) in adt.discriminants(tcx) {
                            if d.val & mask == v && adt.variant(vi).fields.is_empty() {
                                return add(format!(
                                    "{{\"k\":\"adt\",\"v\":{},\"args\":[]}}",
                                    self.variant_json(*adt, vi)
                                ));
                            }
                        }
                    }
                    _ => {}
                },
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    if let ty::Ref(_, inner, _) | ty::RawPtr(inner, _) = t.kind() {
                        match tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::Memory(m) => {
                                if let Some(s) = self.alloc_value(te, m.inner(), off.bytes(), *inner, 0) {
                                    return add(s);
                                }
                            }
                            GlobalAlloc::Static(d) => {
                                return add(format!("{{\"k\":\"static\",\"path\":{}}}", esc(&self.path(d))));
                            }
                            _ => {}
                        }
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        let bytes = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if inner.is_str() {
                                return add(format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(bytes))));
                            }
                            if let ty::Slice(e) = inner.kind() {
                                if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                    return add(format!(
                                        "{{\"k\":\"bytes\",\"v\":{}}}",
                                        arr(bytes.iter().map(|b| b.to_string()))
                                    ));
                                }
                            }
                        }
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        if let Some(s) = self.alloc_value(te, m.inner(), offset.bytes(), t, 0) {
                            return add(s);
                        }
                    }
                }
                _ => {}
            }
        }
        add(format!(
            "{{\"k\":\"opaque\",\"s\":{},\"ty\":{}}}",
            esc(&with_no_trimmed_paths!(format!("{}", c.const_))),
            esc(&self.tystr(t))
        ))
    }

    // ---- places, operands, rvalues --------------------------------------
    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pj = Vec::new();
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let s = match el {
                ProjectionElem::Deref => "{\"p\":\"deref\"}".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = match pt.variant_index {
                                Some(v) => adt.variant(v),
                                None if adt.is_enum() => adt.variant(rustc_abi::VariantIdx::from_u32(0)),
                                None => adt.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_u32().to_string(),
                    };
                    format!("{{\"p\":\"field\",\"i\":{},\"n\":{}}}", f.as_u32(), esc(&name))
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(adt, _) => adt.variant(v).name.to_string(),
                        _ => v.as_u32().to_string(),
                    };
                    format!("{{\"p\":\"downcast\",\"n\":{}}}", esc(&name))
                }
                ProjectionElem::Index(l) => format!("{{\"p\":\"index\",\"l\":{}}}", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(
                    "{{\"p\":\"cindex\",\"o\":{},\"min\":{},\"end\":{}}}",
                    offset, min_length, from_end
                ),
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"p\":\"subslice\",\"f\":{},\"t\":{},\"end\":{}}}", from, to, from_end)
                }
                _ => "{\"p\":\"other\"}".to_string(),
            };
            pj.push(s);
            pt = pt.projection_ty(tcx, el);
        }
        format!("{{\"l\":{},\"pj\":{},\"ty\":{}}}", p.local.as_u32(), arr(pj), esc(&self.tystr(pt.ty)))
    }
    fn op(&self, te: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(body, *p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(body, *p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"c\":{}}}", self.konst(te, c)),
            other => format!("{{\"o\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }
    fn rvalue(&self, te: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.op(te, body, o)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}",
                self.op(te, body, o),
                n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(body, *p)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"raw\":true,\"p\":{}}}",
                matches!(k, RawPtrKind::Mut),
                self.place(body, *p)
            ),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"k\":{},\"a\":{},\"ty\":{},\"from\":{}}}",
                esc(&format!("{:?}", k)),
                self.op(te, body, o),
                esc(&self.tystr(*t)),
                esc(&self.tystr(o.ty(body, tcx)))
            ),
            Rvalue::BinaryOp(b, x) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"ty\":{}}}",
                esc(&format!("{:?}", b)),
                self.op(te, body, &x.0),
                self.op(te, body, &x.1),
                esc(&self.tystr(x.0.ty(body, tcx)))
            ),
            Rvalue::UnaryOp(u, o) => format!(
                "{{\"r\":\"un\",\"op\":{},\"a\":{},\"ty\":{}}}",
                esc(&format!("{:?}", u)),
                self.op(te, body, o),
                esc(&self.tystr(o.ty(body, tcx)))
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let mut m = Vec::new();
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.is_enum() {
                        for (vi, d) in adt.discriminants(tcx) {
                            m.push(format!("[{},{}]", d.val, esc(adt.variant(vi).name.as_str())));
                        }
                    }
                }
                format!("{{\"r\":\"discr\",\"p\":{},\"vs\":{}}}", self.place(body, *p), arr(m))
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => "{\"t\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"t\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        format!("{{\"t\":\"adt\",\"v\":{}}}", self.variant_json(tcx.adt_def(*d), *vi))
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"t\":\"closure\",\"path\":{}}}", esc(&self.path(*d)))
                    }
                    other => format!("{{\"t\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
                };
                format!("{{\"r\":\"agg\",\"k\":{},\"a\":{}}}", kj, arr(ops.iter().map(|o| self.op(te, body, o))))
            }
            Rvalue::CopyForDeref(p) => format!(
                "{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}",
                self.place(body, *p)
            ),
            other => format!("{{\"r\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }

    fn body(&self, name: &str, te: TypingEnv<'tcx>, body: &Body<'tcx>, extra: &str) -> String {
        let tcx = self.tcx;
        let mut names = std::collections::BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let locals = arr(body.local_decls.iter_enumerated().map(|(l, d)| {
            format!(
                "{{\"ty\":{},\"n\":{}}}",
                esc(&self.tystr(d.ty)),
                names.get(&l.as_u32()).map(|n| esc(n)).unwrap_or("null".into())
            )
        }));
        let mut bbs = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => ss.push(format!(
                        "{{\"s\":\"assign\",\"p\":{},\"r\":{},\"sp\":{}}}",
                        self.place(body, x.0),
                        self.rvalue(te, body, &x.1),
                        esc(&self.span(s.source_info.span))
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!(
                        "{{\"s\":\"setdiscr\",\"p\":{},\"v\":{}}}",
                        self.place(body, **place),
                        variant_index.as_u32()
                    )),
                    StatementKind::Intrinsic(i) => {
                        ss.push(format!("{{\"s\":\"intrinsic\",\"d\":{}}}", esc(&format!("{:?}", i))))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"vs\":{},\"else\":{},\"sp\":{}}}",
                    self.op(te, body, discr),
                    esc(&self.tystr(discr.ty(body, tcx))),
                    arr(targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32()))),
                    targets.otherwise().as_u32(),
                    sp
                ),
                TerminatorKind::Return => format!("{{\"t\":\"return\",\"sp\":{}}}", sp),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "{\"t\":\"resume\"}".to_string()
                }
                TerminatorKind::Drop { place, target, .. } => format!(
                    "{{\"t\":\"drop\",\"p\":{},\"to\":{},\"sp\":{}}}",
                    self.place(body, *place),
                    target.as_u32(),
                    sp
                ),
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "{{\"t\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"to\":{},\"sp\":{},\"fty\":{}}}",
                    self.op(te, body, func),
                    arr(args.iter().map(|a| self.op(te, body, &a.node))),
                    self.place(body, *destination),
                    target.map(|b| b.as_u32().to_string()).unwrap_or("null".into()),
                    sp,
                    esc(&self.tystr(destination.ty(body, tcx).ty))
                ),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mk = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "{{\"m\":\"bounds\",\"len\":{},\"index\":{}}}",
                            self.op(te, body, len),
                            self.op(te, body, index)
                        ),
                        AssertKind::Overflow(op, a, b) => format!(
                            "{{\"m\":\"overflow\",\"op\":{},\"a\":{},\"b\":{}}}",
                            esc(&format!("{:?}", op)),
                            self.op(te, body, a),
                            self.op(te, body, b)
                        ),
                        AssertKind::DivisionByZero(a) => {
                            format!("{{\"m\":\"div0\",\"a\":{}}}", self.op(te, body, a))
                        }
                        AssertKind::RemainderByZero(a) => {
                            format!("{{\"m\":\"rem0\",\"a\":{}}}", self.op(te, body, a))
                        }
                        other => format!("{{\"m\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"to\":{},\"sp\":{}}}",
                        self.op(te, body, cond),
                        expected,
                        mk,
                        target.as_u32(),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_u32())
                }
                other => format!("{{\"t\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{},\"cleanup\":{}}}", arr(ss), tj, bb.is_cleanup));
        }
        format!(
            "{{\"name\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"bbs\":{},\"sp\":{}{}}}",
            esc(name),
            body.arg_count,
            body.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into()),
            locals,
            arr(bbs),
            esc(&self.span(body.span)),
            extra
        )
    }

    fn dump(&self) -> String {
        let tcx = self.tcx;
        let mut bodies = Vec::new();
        let mut statics = Vec::new();
        let ev = tcx.effective_visibilities(());
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let te = TypingEnv::post_analysis(tcx, d);
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(d);
                    let name = self.path(d);
                    let mut extra = format!(
                        ",\"pub\":{},\"kind\":{}",
                        ev.is_reachable(*ld) && tcx.visibility(d).is_public(),
                        esc(&format!("{:?}", tcx.def_kind(d)))
                    );
                    let par = tcx.parent(d);
                    if let DefKind::Impl { of_trait } = tcx.def_kind(par) {
                        let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                        let _ = write!(extra, ",\"self_ty\":{}", esc(&self.tystr(st)));
                        if of_trait {
                            let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                            let _ = write!(extra, ",\"trait\":{}", esc(&self.path(tr.def_id)));
                        }
                    }
                    bodies.push(self.body(&name, te, b, &extra));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(self.body(
                            &format!("{}::promoted[{}]", name, i.as_u32()),
                            te,
                            p,
                            ",\"kind\":\"Promoted\",\"pub\":false",
                        ));
                    }
                }
                DefKind::Static { .. } => {
                    if let Ok(a) = tcx.eval_static_initializer(d) {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        if let Some(v) = self.alloc_value(te, a.inner(), 0, t, 0) {
                            statics.push(format!(
                                "{{\"path\":{},\"v\":{},\"mut\":{},\"ty\":{}}}",
                                esc(&self.path(d)),
                                v,
                                tcx.is_mutable_static(d),
                                esc(&self.tystr(t))
                            ));
                            continue;
                        }
                    }
                    statics.push(format!(
                        "{{\"path\":{},\"v\":null,\"mut\":{}}}",
                        esc(&self.path(d)),
                        tcx.is_mutable_static(d)
                    ));
                }
                _ => {}
            }
        }
        let mut adts = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let adt = tcx.adt_def(d);
                    let vs = arr(adt.variants().iter().map(|v| {
                        format!(
                            "{{\"n\":{},\"f\":{}}}",
                            esc(v.name.as_str()),
                            arr(v.fields.iter().map(|f| format!(
                                "{{\"n\":{},\"ty\":{},\"pub\":{}}}",
                                esc(f.name.as_str()),
                                esc(&self.tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                f.vis.is_public()
                            )))
                        )
                    }));
                    adts.push(format!(
                        "{{\"path\":{},\"enum\":{},\"vs\":{}}}",
                        esc(&self.path(d)),
                        adt.is_enum(),
                        vs
                    ));
                }
                _ => {}
            }
        }
        let mut impls = Vec::new();
        for (tr, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is {
                let d = i.to_def_id();
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"items\":{}}}",
                    esc(&self.path(*tr)),
                    esc(&self.tystr(t)),
                    arr(tcx.associated_item_def_ids(d).iter().map(|x| format!(
                        "[{},{}]",
                        esc(tcx.item_name(*x).as_str()),
                        esc(&self.path(*x))
                    )))
                ));
            }
        }
        format!(
            "{{\"crate\":{},\"overflow_checks\":{},\"bodies\":{},\"statics\":{},\"adts\":{},\"impls\":{}}}\n",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            tcx.sess.overflow_checks(),
            arr(bodies),
            arr(statics),
            arr(adts),
            arr(impls)
        )
    }
}

fn alloc_dummy() -> rustc_middle::mir::interpret::AllocId {
    rustc_middle::mir::interpret::AllocId(std::num::NonZero::new(u64::MAX >> 2).unwrap())
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
        config.opts.cg.overflow_checks = Some(true);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            if tcx.dcx().has_errors().is_none() {
                let s = D { tcx }.dump();
                std::fs::write(o, s).expect("writing facts");
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    let mut krate = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            krate = w[1].clone();
        }
    }
    let wanted = std::env::var("PFPSA_CRATES").unwrap_or_default();
    let dir = std::env::var("PFPSA_OUT").unwrap_or_default();
    let out = if wanted.split(',').any(|w| w == krate) && !krate.is_empty() && !args.iter().any(|a| a == "--test") {
        Some(format!("{}/{}.json", dir, krate))
    } else {
        None
    };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
}
