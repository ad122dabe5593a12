// Fact extractor: runs as a RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check` and dumps the
// type-checked program (MIR, types, constants, resolved callees) as JSON to $VP_FACTS_OUT.
// It only reads compiler data; nothing of the analysed crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
fn s<T: Into<String>>(t: T) -> J { J::S(t.into()) }
fn i<T: TryInto<i128>>(t: T) -> J { J::I(t.try_into().ok().unwrap()) }
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => { let _ = write!(o, "{n}"); }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (k, x) in v.iter().enumerate() { if k > 0 { o.push(','); } x.write(o); } o.push(']'); }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() { if k > 0 { o.push(','); } let _ = write!(o, "\"{n}\":"); x.write(o); }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx>, tys: HashMap<Ty<'tcx>, usize>, tyout: Vec<J>, adts: Vec<DefId> }

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}:{}", l.file.name.prefer_local_unconditionally().to_string(), l.line, l.col.0 + 1))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J { J::I(self.tyid(t) as i128) }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&n) = self.tys.get(&t) { return n; }
        let n = self.tyout.len();
        self.tys.insert(t, n);
        self.tyout.push(J::N);
        let name = ty::print::with_no_trimmed_paths!(format!("{t}"));
        let mut o = vec![("s", s(name))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(d, args) => {
                o.push(("k", s("adt")));
                o.push(("def", s(self.path(d.did()))));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
                if !self.adts.contains(&d.did()) { self.adts.push(d.did()); }
            }
            ty::Ref(_, x, m) => { o.push(("k", s("ref"))); let x = self.ty(*x); o.push(("to", x)); o.push(("mut", J::B(m.is_mut()))); }
            ty::RawPtr(x, m) => { o.push(("k", s("ptr"))); let x = self.ty(*x); o.push(("to", x)); o.push(("mut", J::B(m.is_mut()))); }
            ty::Array(x, n) => {
                o.push(("k", s("array"))); let x = self.ty(*x); o.push(("to", x));
                if let Some(n) = n.try_to_target_usize(self.tcx) { o.push(("len", i(n))); }
            }
            ty::Slice(x) => { o.push(("k", s("slice"))); let x = self.ty(*x); o.push(("to", x)); }
            ty::Tuple(ts) => { o.push(("k", s("tuple"))); let a: Vec<J> = ts.iter().map(|x| self.ty(x)).collect(); o.push(("args", J::A(a))); }
            ty::Closure(d, args) => {
                o.push(("k", s("closure"))); o.push(("def", s(self.path(*d))));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(up)));
            }
            ty::FnDef(d, _) => { o.push(("k", s("fndef"))); o.push(("def", s(self.path(*d)))); }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            _ => o.push(("k", s("other"))),
        }
        self.tyout[n] = J::O(o);
        n
    }

    // ---- constants -------------------------------------------------------
    fn alloc_bytes(&self, alloc: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(alloc)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len > a.len() as u64 { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }
    fn bytes_j(b: Vec<u8>) -> J { J::A(b.into_iter().map(|x| J::I(x as i128)).collect()) }
    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>, depth: usize) -> J {
        match sc {
            Scalar::Int(n) => {
                let bits = n.to_bits_unchecked();
                match t.kind() {
                    ty::Bool => J::O(vec![("k", s("bool")), ("v", J::B(bits != 0))]),
                    ty::Char => J::O(vec![("k", s("char")), ("v", i(bits))]),
                    ty::Int(_) => J::O(vec![("k", s("int")), ("v", J::I(n.size().sign_extend(bits)))]),
                    ty::Uint(_) => J::O(vec![("k", s("int")), ("v", i(bits.min(i128::MAX as u128)))]),
                    ty::Float(f) => {
                        let v = match f.bit_width() { 32 => format!("{:?}", f32::from_bits(bits as u32)), 64 => format!("{:?}", f64::from_bits(bits as u64)), _ => format!("{bits}") };
                        J::O(vec![("k", s("float")), ("v", s(v))])
                    }
                    ty::Adt(..) => self.destructure(ConstValue::Scalar(sc), t, depth),
                    _ => J::O(vec![("k", s("bits")), ("v", s(bits.to_string()))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match t.kind() {
                    ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                        match self.tcx.try_get_global_alloc(id) {
                            Some(GlobalAlloc::Static(d)) => J::O(vec![("k", s("staticref")), ("def", s(self.path(d)))]),
                            Some(GlobalAlloc::Memory(_)) => {
                                let v = self.value(ConstValue::Indirect { alloc_id: id, offset: off }, *x, depth + 1);
                                J::O(vec![("k", s("ref")), ("v", v)])
                            }
                            _ => J::O(vec![("k", s("opaque"))]),
                        }
                    }
                    _ => J::O(vec![("k", s("opaque"))]),
                }
            }
        }
    }
    fn slice(&mut self, alloc: mir::interpret::AllocId, off: u64, n: u64, elem_or_str: Ty<'tcx>, depth: usize) -> J {
        match elem_or_str.kind() {
            ty::Str => match self.alloc_bytes(alloc, off, n) {
                Some(b) => J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(&b).to_string()))]),
                None => J::O(vec![("k", s("opaque"))]),
            },
            ty::Slice(e) => {
                if *e == self.tcx.types.u8 {
                    if let Some(b) = self.alloc_bytes(alloc, off, n) { return J::O(vec![("k", s("bytes")), ("v", Self::bytes_j(b))]); }
                }
                let sz = self.size(*e);
                let v = (0..n).map(|k| self.value(ConstValue::Indirect { alloc_id: alloc, offset: rustc_abi::Size::from_bytes(off + k * sz) }, *e, depth + 1)).collect();
                J::O(vec![("k", s("array")), ("v", J::A(v))])
            }
            _ => J::O(vec![("k", s("opaque"))]),
        }
    }
    fn size(&self, t: Ty<'tcx>) -> u64 {
        self.tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t)).map(|l| l.size.bytes()).unwrap_or(0)
    }
    fn value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 12 { return J::O(vec![("k", s("opaque"))]); }
        match (v, t.kind()) {
            (ConstValue::ZeroSized, ty::FnDef(d, args)) => self.fn_ref(*d, args.skip_binder(), None),
            (ConstValue::ZeroSized, ty::Adt(..)) | (ConstValue::ZeroSized, ty::Tuple(_)) | (ConstValue::ZeroSized, ty::Array(..)) => self.destructure(v, t, depth),
            (ConstValue::ZeroSized, _) => { let t = self.ty(t); J::O(vec![("k", s("zst")), ("ty", t)]) }
            (ConstValue::Scalar(sc), _) => self.scalar(sc, t, depth),
            (ConstValue::Slice { alloc_id, meta }, ty::Ref(_, x, _)) => self.slice(alloc_id, 0, meta, *x, depth),
            (ConstValue::Slice { .. }, _) => J::O(vec![("k", s("opaque"))]),
            (ConstValue::Indirect { alloc_id, offset }, kind) => {
                let sz = self.size(t);
                match kind {
                    ty::Ref(_, x, _) if matches!(x.kind(), ty::Str | ty::Slice(_)) => {
                        let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) else { return J::O(vec![("k", s("opaque"))]) };
                        let a = m.inner();
                        let r = AllocRange { start: offset, size: rustc_abi::Size::from_bytes(8) };
                        let p = a.read_scalar(&self.tcx, r, true);
                        let r2 = AllocRange { start: offset + rustc_abi::Size::from_bytes(8), size: rustc_abi::Size::from_bytes(8) };
                        let n = a.read_scalar(&self.tcx, r2, false);
                        match (p, n) {
                            (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(n))) => {
                                let (prov, off) = p.into_raw_parts();
                                self.slice(prov.alloc_id(), off.bytes(), n.to_bits_unchecked() as u64, *x, depth)
                            }
                            _ => J::O(vec![("k", s("opaque"))]),
                        }
                    }
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Ref(..) | ty::RawPtr(..) => {
                        let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) else { return J::O(vec![("k", s("opaque"))]) };
                        let is_ptr = matches!(kind, ty::Ref(..) | ty::RawPtr(..));
                        match m.inner().read_scalar(&self.tcx, AllocRange { start: offset, size: rustc_abi::Size::from_bytes(sz) }, is_ptr) {
                            Ok(sc) => self.scalar(sc, t, depth),
                            Err(_) => J::O(vec![("k", s("opaque"))]),
                        }
                    }
                    ty::Array(e, n) if *e == self.tcx.types.u8 => {
                        let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                        match self.alloc_bytes(alloc_id, offset.bytes(), n) {
                            Some(b) => J::O(vec![("k", s("bytes")), ("v", Self::bytes_j(b))]),
                            None => J::O(vec![("k", s("opaque"))]),
                        }
                    }
                    ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.destructure(v, t, depth),
                    _ => J::O(vec![("k", s("opaque"))]),
                }
            }
        }
    }
    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        if let ty::Adt(d, _) = t.kind() {
            let local_or_simple = d.did().is_local() || d.is_enum() || true;
            if !local_or_simple || d.is_union() || d.variants().is_empty() { return J::O(vec![("k", s("opaque"))]); }
        }
        let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) else { return J::O(vec![("k", s("opaque"))]) };
        let fields: Vec<J> = d.fields.iter().map(|(v, t)| self.value(*v, *t, depth + 1)).collect();
        let mut o = match t.kind() {
            ty::Adt(a, _) => {
                let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                vec![("k", s("adt")), ("def", s(self.path(a.did()))), ("variant", i(vi as u64)), ("vname", s(a.variants()[rustc_abi::VariantIdx::from_usize(vi)].name.to_string()))]
            }
            ty::Tuple(_) => vec![("k", s("tuple"))],
            _ => vec![("k", s("array"))],
        };
        o.push(("v", J::A(fields)));
        J::O(o)
    }
    fn fn_ref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: Option<ty::TypingEnv<'tcx>>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("k", s("fn")), ("path", s(self.path(d))), ("local", J::B(d.is_local()))];
        let ts: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("targs", J::A(ts)));
        if let Some(t) = tcx.trait_of_assoc(d) { o.push(("trait", s(self.path(t)))); }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            let p = tcx.parent(d);
            let (adt, v) = match tcx.def_kind(p) { DefKind::Variant => (tcx.parent(p), tcx.item_name(p).to_string()), _ => (p, tcx.item_name(p).to_string()) };
            o.push(("adt", s(self.path(adt)))); o.push(("vname", s(v)));
            let def = tcx.adt_def(adt);
            if !self.adts.contains(&adt) { self.adts.push(adt); }
            let vi = if def.is_enum() { def.variants().iter_enumerated().find(|(_, x)| x.ctor_def_id() == Some(d)).map(|(k, _)| k.as_usize()).unwrap_or(0) } else { 0 };
            o.push(("variant", i(vi as u64)));
        } else if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let env = env.unwrap_or(ty::TypingEnv::fully_monomorphized());
            let a = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, a) {
                let rd = inst.def_id();
                o.push(("res", s(self.path(rd))));
                o.push(("reslocal", J::B(rd.is_local() && matches!(inst.def, ty::InstanceKind::Item(_)))));
                o.push(("shim", J::B(!matches!(inst.def, ty::InstanceKind::Item(_)))));
            }
        }
        J::O(o)
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() { return self.fn_ref(*d, args.skip_binder(), Some(env)); }
        let name = match c.const_ {
            Const::Unevaluated(u, _) if u.promoted.is_none() => Some(self.path(u.def)),
            _ => None,
        };
        let v = match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => self.value(v, t, 0),
            Err(_) => J::O(vec![("k", s("opaque"))]),
        };
        let tj = self.ty(t);
        let mut o = vec![("k", s("const")), ("ty", tj), ("v", v)];
        if let Some(n) = name { o.push(("name", s(n))); }
        J::O(o)
    }

    // ---- MIR ---------------------------------------------------------------
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut a = vec![J::I(p.local.as_usize() as i128)];
        for e in p.projection.iter() {
            a.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("f"), i(f.as_usize() as u64), t]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize() as u64)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("c"), i(offset), i(min_length), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), i(from), i(to), J::B(from_end)]),
                ProjectionElem::Downcast(n, v) => J::A(vec![s("d"), i(v.as_usize() as u64), s(n.map(|x| x.to_string()).unwrap_or_default())]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(a)
    }
    fn op(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.konst(c, env)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rtcheck")]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, env)]),
            Rvalue::Repeat(o, n) => { let l = n.try_to_target_usize(self.tcx).map(i).unwrap_or(J::N); J::A(vec![s("repeat"), self.op(o, env), l]) }
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), s(match k { BorrowKind::Shared => "shared", BorrowKind::Mut { .. } => "mut", _ => "fake" }), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(p)]),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); J::A(vec![s("cast"), s(format!("{k:?}")), self.op(o, env), t]) }
            Rvalue::BinaryOp(b, ops) => J::A(vec![s("bin"), s(format!("{b:?}")), self.op(&ops.0, env), self.op(&ops.1, env)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{u:?}")), self.op(o, env)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p)])]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::O(vec![("k", s("array"))]),
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        if !self.adts.contains(d) { self.adts.push(*d); }
                        let def = self.tcx.adt_def(*d);
                        J::O(vec![("k", s("adt")), ("def", s(self.path(*d))), ("variant", i(v.as_usize() as u64)), ("vname", s(def.variant(*v).name.to_string())),
                                  ("union", f.map(|x| i(x.as_usize() as u64)).unwrap_or(J::N))])
                    }
                    AggregateKind::Closure(d, _) => J::O(vec![("k", s("closure")), ("def", s(self.path(*d)))]),
                    _ => J::O(vec![("k", s("other"))]),
                };
                let ops: Vec<J> = ops.iter().map(|o| self.op(o, env)).collect();
                J::A(vec![s("agg"), kj, J::A(ops)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("unknown"), s(format!("{r:?}"))]),
        }
    }
    fn body(&mut self, did: LocalDefId) -> J {
        let tcx = self.tcx;
        let body: &Body<'tcx> = tcx.optimized_mir(did);
        let env = ty::TypingEnv::post_analysis(tcx, did);
        let mut locals = vec![];
        for d in body.local_decls.iter() { locals.push(self.ty(d.ty)); }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value { names.push(J::A(vec![s(v.name.to_string()), self.place(p)])); }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(J::N); continue; }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => { let (p, r) = &**b; st.push(J::A(vec![s("="), self.place(p), self.rv(r, env), self.span(x.source_info.span)])); }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![s("setd"), self.place(place), i(variant_index.as_usize() as u64), self.span(x.source_info.span)])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_usize() as u64)])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), i(l.as_usize() as u64)])),
                    StatementKind::Intrinsic(n) => st.push(J::A(vec![s("intrinsic"), s(format!("{n:?}"))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize() as u64)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tv: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![i(v.min(i128::MAX as u128)), i(b.as_usize() as u64)])).collect();
                    let o = targets.otherwise();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dtj = self.ty(dt);
                    J::A(vec![s("switch"), self.op(discr, env), J::A(tv), i(o.as_usize() as u64), dtj, sp])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(place), i(target.as_usize() as u64)]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, env);
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, env)).collect();
                    let d = self.place(destination);
                    let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t) }).collect();
                    J::A(vec![s("call"), f, J::A(a), d, target.map(|b| i(b.as_usize() as u64)).unwrap_or(J::N), sp, J::A(at)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.op(len, env), self.op(index, env)]),
                        AssertKind::Overflow(b, x, y) => J::A(vec![s("overflow"), s(format!("{b:?}")), self.op(x, env), self.op(y, env)]),
                        AssertKind::OverflowNeg(x) => J::A(vec![s("overflowneg"), self.op(x, env)]),
                        AssertKind::DivisionByZero(x) => J::A(vec![s("div0"), self.op(x, env)]),
                        AssertKind::RemainderByZero(x) => J::A(vec![s("rem0"), self.op(x, env)]),
                        _ => J::A(vec![s("other")]),
                    };
                    J::A(vec![s("assert"), self.op(cond, env), J::B(*expected), m, i(target.as_usize() as u64), sp])
                }
                _ => J::A(vec![s("other"), s(format!("{:?}", t.kind))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", self.span(t.source_info.span))]));
        }
        let sp = self.span(tcx.def_span(did.to_def_id()));
        let mut o = vec![("path", s(self.path(did.to_def_id()))), ("span", sp), ("args", i(body.arg_count as u64)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks))];
        if tcx.is_closure_like(did.to_def_id()) {
            o.push(("closure", J::B(true)));
            o.push(("parent", s(self.path(tcx.typeck_root_def_id(did.to_def_id())))));
            let caps: Vec<J> = tcx.closure_captures(did).iter().map(|c| s(format!("{}", c.to_symbol()))).collect();
            o.push(("captures", J::A(caps)));
        }
        if let Some(im) = tcx.impl_of_assoc(did.to_def_id()) {
            if let Some(tr) = tcx.trait_impl_of_assoc(did.to_def_id()).and_then(|x| tcx.impl_opt_trait_ref(x)) {
                o.push(("implof", s(self.path(tr.skip_binder().def_id))));
            }
            let st = tcx.type_of(im).skip_binder();
            let st = self.ty(st);
            o.push(("selfty", st));
            o.push(("derived", J::B(tcx.is_automatically_derived(im))));
        }
        let fs = tcx.def_span(did.to_def_id());
        o.push(("expn", J::B(fs.from_expansion())));
        J::O(o)
    }
}

struct UnsafeVis<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(String, Span)> }
impl<'tcx> Visitor<'tcx> for UnsafeVis<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            self.out.push((format!("unsafe block ({src:?})"), b.span));
        }
        intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, it: &'tcx rustc_hir::Item<'tcx>) {
        use rustc_hir::ItemKind as K;
        match &it.kind {
            K::Fn { sig, .. } if sig.header.is_unsafe() => self.out.push(("unsafe fn".into(), it.span)),
            K::Static(m, ..) if m.is_mut() => self.out.push(("static mut".into(), it.span)),
            K::ForeignMod { .. } => self.out.push(("extern block".into(), it.span)),
            K::Union(..) => self.out.push(("union".into(), it.span)),
            K::GlobalAsm { .. } => self.out.push(("global asm".into(), it.span)),
            K::Impl(im) if !self.tcx.is_automatically_derived(it.owner_id.def_id.to_def_id()) => if let Some(tr) = im.of_trait { if format!("{:?}", tr.safety).contains("Unsafe") { self.out.push(("unsafe impl".into(), it.span)); } },
            _ => {}
        }
        for a in self.tcx.hir_attrs(it.hir_id()) {
            let d = format!("{a:?}");
            for bad in ["NoMangle", "ExportName", "LinkSection"] { if d.contains(bad) { self.out.push((format!("attribute {bad}"), it.span)); } }
        }
        intravisit::walk_item(self, it);
    }
    fn visit_impl_item(&mut self, it: &'tcx rustc_hir::ImplItem<'tcx>) {
        if let rustc_hir::ImplItemKind::Fn(sig, _) = &it.kind { if sig.header.is_unsafe() { self.out.push(("unsafe fn".into(), it.span)); } }
        intravisit::walk_impl_item(self, it);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) { c.opts.unstable_opts.mir_opt_level = Some(0); }
    fn after_analysis<'tcx>(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let Ok(out) = std::env::var("VP_FACTS_OUT") else { return rustc_driver::Compilation::Continue };
        let mut cx = Cx { tcx, tys: HashMap::new(), tyout: vec![], adts: vec![] };
        let mut fns = vec![]; let mut consts = vec![];
        for did in tcx.hir_body_owners() {
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => fns.push(cx.body(did)),
                DefKind::Static { .. } => {
                    let t = tcx.type_of(did).skip_binder();
                    let v = match tcx.eval_static_initializer(did.to_def_id()) {
                        Ok(a) => { let id = tcx.reserve_and_set_memory_alloc(a); cx.value(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, t, 0) }
                        Err(_) => J::O(vec![("k", s("opaque"))]),
                    };
                    let tj = cx.ty(t); let sp = cx.span(tcx.def_span(did.to_def_id()));
                    consts.push(J::O(vec![("path", s(cx.path(did.to_def_id()))), ("kind", s("static")), ("ty", tj), ("v", v), ("span", sp)]));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(did).skip_binder();
                    if tcx.generics_of(did).count() > 0 { continue; }
                    let v = match tcx.const_eval_poly(did.to_def_id()) { Ok(v) => cx.value(v, t, 0), Err(_) => J::O(vec![("k", s("opaque"))]) };
                    let tj = cx.ty(t); let sp = cx.span(tcx.def_span(did.to_def_id()));
                    consts.push(J::O(vec![("path", s(cx.path(did.to_def_id()))), ("kind", s("const")), ("ty", tj), ("v", v), ("span", sp)]));
                }
                _ => {}
            }
        }
        // local ADTs even if unused in bodies
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) { let d = id.to_def_id(); if !cx.adts.contains(&d) { cx.adts.push(d); } }
        }
        let mut adts = vec![]; let mut k = 0;
        while k < cx.adts.len() {
            let d = cx.adts[k]; k += 1;
            let def = tcx.adt_def(d);
            let mut vs = vec![];
            let discrs: Vec<i128> = if def.is_enum() { def.discriminants(tcx).map(|(_, x)| {
                let (size, signed) = match x.ty.kind() { ty::Int(_) => (cx.size(x.ty), true), _ => (0, false) };
                if signed { rustc_abi::Size::from_bytes(size).sign_extend(x.val) } else { x.val as i128 } }).collect() } else { vec![0] };
            for (vi, v) in def.variants().iter_enumerated() {
                let fs: Vec<J> = v.fields.iter().map(|f| {
                    let t = if d.is_local() { let t = tcx.type_of(f.did).skip_binder(); cx.ty(t) } else { J::N };
                    J::A(vec![s(f.name.to_string()), t]) }).collect();
                vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", J::I(discrs.get(vi.as_usize()).copied().unwrap_or(0))), ("fields", J::A(fs))]));
            }
            let sp = cx.span(tcx.def_span(d));
            adts.push(J::O(vec![("path", s(cx.path(d))), ("local", J::B(d.is_local())), ("enum", J::B(def.is_enum())), ("union", J::B(def.is_union())), ("variants", J::A(vs)), ("span", sp)]));
        }
        let mut uv = UnsafeVis { tcx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut uv);
        let uns: Vec<J> = uv.out.iter().map(|(k, sp)| J::A(vec![s(k.clone()), cx.span(*sp)])).collect();
        let mut attrs = vec![];
        for a in tcx.hir_attrs(rustc_hir::CRATE_HIR_ID) { attrs.push(s(format!("{a:?}").chars().take(200).collect::<String>())); }
        let root = J::O(vec![("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())), ("fns", J::A(fns)), ("consts", J::A(consts)),
                             ("adts", J::A(adts)), ("unsafe", J::A(uns)), ("attrs", J::A(attrs)), ("types", J::A(std::mem::take(&mut cx.tyout)))]);
        let mut o = String::new();
        root.write(&mut o);
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let ty = if tcx.crate_types().iter().any(|t| format!("{t:?}").contains("Executable")) { "bin" } else { "lib" };
        std::fs::write(format!("{out}/{name}.{ty}.json"), o).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && !args[1].starts_with('-') { args.remove(1); }
    std::process::exit(match rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)) { Ok(()) => 0, Err(_) => 1 });
}
