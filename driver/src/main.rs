//! Extracts the type-checked, monomorphised MIR that is reachable from the
//! harness crate's root functions and writes it as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_hir;

mod json;
use json::J;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;

struct Ctx {
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<J>,
    ty_queue: Vec<Ty>,
    inst_ids: HashMap<Instance, usize>,
    insts: Vec<Instance>,
    alloc_ids: HashMap<AllocId, usize>,
    allocs: Vec<J>,
    alloc_queue: Vec<AllocId>,
    files: HashMap<String, usize>,
    file_list: Vec<J>,
}

fn s(x: impl ToString) -> J {
    J::S(x.to_string())
}
fn n(x: impl TryInto<i128>) -> J {
    J::N(x.try_into().ok().unwrap_or(-1))
}
fn big(x: u128) -> J {
    // JSON ints are arbitrary precision for Python
    J::S(x.to_string())
}
macro_rules! arr { ($($e:expr),* $(,)?) => { J::A(vec![$($e),*]) } }
macro_rules! obj { ($($k:literal : $e:expr),* $(,)?) => { J::O(vec![$(($k.to_string(), $e)),*]) } }

impl Ctx {
    fn ty(&mut self, t: Ty) -> J {
        if let Some(i) = self.ty_ids.get(&t) {
            return n(*i as i128);
        }
        let i = self.tys.len();
        self.ty_ids.insert(t, i);
        self.tys.push(J::Null);
        self.ty_queue.push(t);
        n(i as i128)
    }

    fn drain_types(&mut self) {
        while let Some(t) = self.ty_queue.pop() {
            let i = self.ty_ids[&t];
            let j = self.describe_ty(t);
            self.tys[i] = j;
        }
    }

    fn layout(&mut self, t: Ty) -> J {
        let Ok(l) = t.layout() else { return J::Null };
        let sh = l.shape();
        let fields = match &sh.fields {
            FieldsShape::Primitive => J::Null,
            FieldsShape::Union(_) => s("union"),
            FieldsShape::Array { stride, count } => {
                obj! {"stride": n(stride.bytes() as i128), "count": n(*count as i128)}
            }
            FieldsShape::Arbitrary { offsets } => {
                J::A(offsets.iter().map(|o| n(o.bytes() as i128)).collect())
            }
        };
        let variants = match &sh.variants {
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let tag_sz = match tag {
                    rustc_public::abi::Scalar::Initialized { value, .. }
                    | rustc_public::abi::Scalar::Union { value } => {
                        value.size(&rustc_public::target::MachineInfo::target()).bytes()
                    }
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => s("direct"),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        obj! {"untagged": n(untagged_variant.to_index() as i128),
                        "start": n(niche_variants.start().to_index() as i128),
                        "end": n(niche_variants.end().to_index() as i128),
                        "niche_start": big(*niche_start)}
                    }
                };
                obj! {"kind": s("multiple"), "tag_size": n(tag_sz as i128), "tag_field": n(*tag_field as i128), "enc": enc,
                "variants": J::A(variants.iter().map(|v| J::A(v.offsets.iter().map(|o| n(o.bytes() as i128)).collect())).collect())}
            }
            VariantsShape::Single { index } => {
                obj! {"kind": s("single"), "index": n(index.to_index() as i128)}
            }
            VariantsShape::Empty => obj! {"kind": s("empty")},
        };
        obj! {"size": n(sh.size.bytes() as i128), "align": n(sh.abi_align as i128), "fields": fields, "variants": variants}
    }

    fn describe_ty(&mut self, t: Ty) -> J {
        let name = s(t.to_string());
        let lay = self.layout(t);
        let TyKind::RigidTy(r) = t.kind() else {
            return obj! {"k": s("other"), "name": name};
        };
        match r {
            RigidTy::Bool => obj! {"k": s("bool"), "name": name, "layout": lay},
            RigidTy::Char => obj! {"k": s("int"), "w": n(32), "s": J::B(false), "name": name, "layout": lay},
            RigidTy::Int(it) => {
                obj! {"k": s("int"), "w": n(it.num_bytes() as i128 * 8), "s": J::B(true), "name": name, "layout": lay}
            }
            RigidTy::Uint(it) => {
                obj! {"k": s("int"), "w": n(it.num_bytes() as i128 * 8), "s": J::B(false), "name": name, "layout": lay}
            }
            RigidTy::Float(f) => {
                let w = match f {
                    FloatTy::F16 => 16,
                    FloatTy::F32 => 32,
                    FloatTy::F64 => 64,
                    FloatTy::F128 => 128,
                };
                obj! {"k": s("float"), "w": n(w), "name": name, "layout": lay}
            }
            RigidTy::Adt(def, args) => {
                let kind = match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let mut vs = vec![];
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let fty = f.ty_with_args(&args);
                        fs.push(obj! {"name": s(&f.name), "ty": self.ty(fty)});
                    }
                    let d = if def.kind() == AdtKind::Enum {
                        big(def.discriminant_for_variant(v.idx()).val)
                    } else {
                        s("0")
                    };
                    vs.push(obj! {"name": s(v.name()), "fields": J::A(fs), "discr": d});
                }
                let dty = t.kind().discriminant_ty();
                let dt = match dty {
                    Some(d) if def.kind() == AdtKind::Enum => self.ty(d),
                    _ => J::Null,
                };
                let repr = def.repr();
                obj! {"k": s(kind), "name": name, "def": s(def.name()), "krate": s(&def.krate().name),
                "variants": J::A(vs), "layout": lay, "discr_ty": dt, "repr": s(format!("{:?}", repr)),
                "drop": J::B(!Instance::resolve_drop_in_place(t).is_empty_shim())}
            }
            RigidTy::Str => obj! {"k": s("str"), "name": name},
            RigidTy::Slice(e) => obj! {"k": s("slice"), "name": name, "elem": self.ty(e)},
            RigidTy::Array(e, l) => {
                obj! {"k": s("array"), "name": name, "elem": self.ty(e), "len": n(l.eval_target_usize().unwrap_or(0) as i128), "layout": lay}
            }
            RigidTy::RawPtr(p, m) => {
                obj! {"k": s("ptr"), "name": name, "to": self.ty(p), "mut": J::B(m == Mutability::Mut), "layout": lay}
            }
            RigidTy::Ref(_, p, m) => {
                obj! {"k": s("ptr"), "ref": J::B(true), "name": name, "to": self.ty(p), "mut": J::B(m == Mutability::Mut), "layout": lay}
            }
            RigidTy::FnDef(def, args) => {
                let inst = Instance::resolve(def, &args).ok();
                let id = match inst {
                    Some(i) => self.inst(i),
                    None => J::Null,
                };
                obj! {"k": s("fndef"), "name": name, "inst": id, "def": s(def.name()), "layout": lay}
            }
            RigidTy::FnPtr(_) => obj! {"k": s("fnptr"), "name": name, "layout": lay},
            RigidTy::Closure(def, args) => {
                // upvar tuple is the last generic arg
                let ups = args.0.last().and_then(|a| a.ty().copied());
                let mut fs = vec![];
                if let Some(u) = ups {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = u.kind() {
                        for x in ts {
                            fs.push(self.ty(x));
                        }
                    }
                }
                obj! {"k": s("closure"), "name": name, "def": s(def.name()), "fields": J::A(fs), "layout": lay}
            }
            RigidTy::Tuple(ts) => {
                let fs = ts.iter().map(|x| self.ty(*x)).collect();
                obj! {"k": s("tuple"), "name": name, "fields": J::A(fs), "layout": lay}
            }
            RigidTy::Pat(b, _) => {
                let J::O(mut v) = self.describe_ty(b) else { unreachable!() };
                for (k, x) in v.iter_mut() {
                    if k == "name" {
                        *x = s(t.to_string());
                    }
                }
                J::O(v)
            }
            RigidTy::Never => obj! {"k": s("never"), "name": name},
            RigidTy::Dynamic(..) => obj! {"k": s("dyn"), "name": name},
            _ => obj! {"k": s("other"), "name": name, "layout": lay},
        }
    }

    fn inst(&mut self, i: Instance) -> J {
        if let Some(x) = self.inst_ids.get(&i) {
            return n(*x as i128);
        }
        let id = self.insts.len();
        self.inst_ids.insert(i, id);
        self.insts.push(i);
        n(id as i128)
    }

    fn alloc_id(&mut self, a: AllocId) -> J {
        if let Some(i) = self.alloc_ids.get(&a) {
            return n(*i as i128);
        }
        let i = self.allocs.len();
        self.alloc_ids.insert(a, i);
        self.allocs.push(J::Null);
        self.alloc_queue.push(a);
        n(i as i128)
    }

    fn drain_allocs(&mut self) {
        while let Some(a) = self.alloc_queue.pop() {
            let i = self.alloc_ids[&a];
            let j = match GlobalAlloc::from(a) {
                GlobalAlloc::Function(inst) => obj! {"k": s("fn"), "inst": self.inst(inst)},
                GlobalAlloc::VTable(t, _) => obj! {"k": s("vtable"), "ty": self.ty(t)},
                GlobalAlloc::Static(def) => {
                    let al = def.eval_initializer().ok().map(|x| self.alloc(&x)).unwrap_or(J::Null);
                    obj! {"k": s("static"), "name": s(def.name()), "ty": self.ty(def.ty()), "alloc": al}
                }
                GlobalAlloc::Memory(m) => obj! {"k": s("mem"), "alloc": self.alloc(&m)},
                GlobalAlloc::TypeId { ty } => obj! {"k": s("typeid"), "ty": self.ty(ty)},
            };
            self.allocs[i] = j;
        }
    }

    fn alloc(&mut self, a: &Allocation) -> J {
        let mut hex = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes {
            match b {
                Some(x) => hex.push_str(&format!("{x:02x}")),
                None => hex.push_str("--"),
            }
        }
        let prov = a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| arr![n(*o as i128), self.alloc_id(p.0)])
            .collect();
        obj! {"b": J::S(hex), "p": J::A(prov), "m": J::B(a.mutability == Mutability::Mut)}
    }

    fn constant(&mut self, c: &MirConst) -> J {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::ZeroSized => arr![s("zst"), t],
            ConstantKind::Allocated(a) => {
                let al = self.alloc(a);
                arr![s("alloc"), t, al]
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(vt, a) => {
                    let vt = self.ty(*vt);
                    let al = self.alloc(a);
                    arr![s("alloc"), vt, al]
                }
                TyConstKind::ZSTValue(vt) => {
                    let vt = self.ty(*vt);
                    arr![s("zst"), vt]
                }
                o => arr![s("unknown"), t, s(format!("{o:?}"))],
            },
            o => arr![s("unknown"), t, s(format!("{o:?}"))],
        }
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => arr![s("*")],
                ProjectionElem::Field(i, t) => arr![s("."), n(*i as i128), self.ty(*t)],
                ProjectionElem::Index(l) => arr![s("[]"), n(*l as i128)],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr![s("[c]"), n(*offset as i128), n(*min_length as i128), J::B(*from_end)]
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr![s("[s]"), n(*from as i128), n(*to as i128), J::B(*from_end)]
                }
                ProjectionElem::Downcast(v) => arr![s("v"), n(v.to_index() as i128)],
                ProjectionElem::OpaqueCast(t) => arr![s("oc"), self.ty(*t)],
            });
        }
        arr![n(p.local as i128), J::A(v)]
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => arr![s("c"), self.place(p)],
            Operand::Move(p) => arr![s("m"), self.place(p)],
            Operand::Constant(c) => arr![s("k"), self.constant(&c.const_)],
            Operand::RuntimeChecks(r) => arr![s("rc"), s(format!("{r:?}"))],
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::AddressOf(_, p) => arr![s("addr"), self.place(p)],
            Rvalue::Ref(_, _, p) => arr![s("addr"), self.place(p)],
            Rvalue::Aggregate(k, ops) => {
                let kj = match k {
                    AggregateKind::Array(_) => arr![s("array")],
                    AggregateKind::Tuple => arr![s("tuple")],
                    AggregateKind::Adt(_, v, _, _, f) => {
                        arr![s("adt"), n(v.to_index() as i128), f.map(|x| n(x as i128)).unwrap_or(J::Null)]
                    }
                    AggregateKind::Closure(..) => arr![s("closure")],
                    AggregateKind::RawPtr(..) => arr![s("rawptr")],
                    o => arr![s("other"), s(format!("{o:?}"))],
                };
                let t = r.ty(locals).ok();
                let tj = match t {
                    Some(t) => self.ty(t),
                    None => J::Null,
                };
                arr![s("agg"), kj, J::A(ops.iter().map(|o| self.operand(o)).collect()), tj]
            }
            Rvalue::BinaryOp(b, x, y) => {
                let t = x.ty(locals).unwrap();
                let tr = b.ty(t, y.ty(locals).unwrap());
                arr![s("bin"), s(format!("{b:?}")), self.operand(x), self.operand(y), self.ty(t), self.ty(tr)]
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(locals).unwrap();
                arr![s("chk"), s(format!("{b:?}")), self.operand(x), self.operand(y), self.ty(t)]
            }
            Rvalue::Cast(k, o, t) => {
                let f = o.ty(locals).unwrap();
                arr![s("cast"), s(format!("{k:?}")), self.operand(o), self.ty(f), self.ty(*t)]
            }
            Rvalue::CopyForDeref(p) => arr![s("use"), arr![s("c"), self.place(p)]],
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).unwrap();
                arr![s("discr"), self.place(p), self.ty(t)]
            }
            Rvalue::Len(p) => arr![s("len"), self.place(p)],
            Rvalue::Repeat(o, c) => {
                let t = r.ty(locals).unwrap();
                arr![s("repeat"), self.operand(o), n(c.eval_target_usize().unwrap_or(0) as i128), self.ty(t)]
            }
            Rvalue::ThreadLocalRef(_) => arr![s("tls")],
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(locals).unwrap();
                arr![s("un"), s(format!("{u:?}")), self.operand(o), self.ty(t)]
            }
            Rvalue::Use(o, _) => arr![s("use"), self.operand(o)],
            Rvalue::Reborrow(_, _, p) => arr![s("use"), arr![s("c"), self.place(p)]],
        }
    }

    fn span(&mut self, sp: Span) -> J {
        let f = sp.get_filename().to_string();
        let next = self.file_list.len();
        let fi = match self.files.get(&f) {
            Some(i) => *i,
            None => {
                self.files.insert(f.clone(), next);
                self.file_list.push(s(&f));
                next
            }
        };
        let l = sp.get_lines();
        arr![n(fi as i128), n(l.start_line as i128)]
    }

    fn terminator(&mut self, t: &Terminator, locals: &[LocalDecl]) -> J {
        let sp = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target } => arr![s("goto"), sp, n(*target as i128)],
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(locals).unwrap();
                let br = targets.branches().map(|(v, b)| arr![big(v), n(b as i128)]).collect();
                arr![s("switch"), sp, self.operand(discr), J::A(br), n(targets.otherwise() as i128), self.ty(ty)]
            }
            TerminatorKind::Resume => arr![s("resume"), sp],
            TerminatorKind::Abort => arr![s("abort"), sp],
            TerminatorKind::Return => arr![s("return"), sp],
            TerminatorKind::Unreachable => arr![s("unreachable"), sp],
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(locals).unwrap();
                let d = Instance::resolve_drop_in_place(ty);
                let i = if d.is_empty_shim() { J::Null } else { self.inst(d) };
                arr![s("drop"), sp, self.place(place), n(*target as i128), i]
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(locals).unwrap();
                let callee = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(def, gargs)) => match Instance::resolve(def, &gargs) {
                        Ok(i) => arr![s("inst"), self.inst(i)],
                        Err(_) => arr![s("unresolved"), s(def.name())],
                    },
                    _ => arr![s("ptr"), self.operand(func)],
                };
                let a = args.iter().map(|x| {
                    let t = x.ty(locals).unwrap();
                    arr![self.operand(x), self.ty(t)]
                }).collect();
                let dt = destination.ty(locals).unwrap();
                arr![s("call"), sp, callee, J::A(a), self.place(destination),
                    target.map(|x| n(x as i128)).unwrap_or(J::Null), self.ty(dt)]
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let k = match msg {
                    AssertMessage::BoundsCheck { len, index } => {
                        arr![s("bounds"), self.operand(len), self.operand(index)]
                    }
                    AssertMessage::Overflow(b, ..) => arr![s("overflow"), s(format!("{b:?}"))],
                    AssertMessage::OverflowNeg(_) => arr![s("overflow"), s("Neg")],
                    AssertMessage::DivisionByZero(_) => arr![s("divzero")],
                    AssertMessage::RemainderByZero(_) => arr![s("remzero")],
                    AssertMessage::MisalignedPointerDereference { .. } => arr![s("misaligned")],
                    AssertMessage::NullPointerDereference => arr![s("nullderef")],
                    AssertMessage::NullReferenceConstructed => arr![s("nullref")],
                    AssertMessage::InvalidEnumConstruction(_) => arr![s("badenum")],
                    o => arr![s("other"), s(format!("{o:?}"))],
                };
                arr![s("assert"), sp, self.operand(cond), J::B(*expected), k, n(*target as i128)]
            }
            TerminatorKind::InlineAsm { .. } => arr![s("asm"), sp],
        }
    }

    fn statement(&mut self, st: &Statement, locals: &[LocalDecl]) -> Option<J> {
        let sp = self.span(st.source_info.span);
        Some(match &st.kind {
            StatementKind::Assign(p, r) => {
                let pt = p.ty(locals).unwrap();
                arr![s("="), sp, self.place(p), self.rvalue(r, locals), self.ty(pt)]
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                arr![s("setd"), sp, self.place(place), n(variant_index.to_index() as i128)]
            }
            StatementKind::StorageLive(l) => arr![s("live"), sp, n(*l as i128)],
            StatementKind::StorageDead(l) => arr![s("dead"), sp, n(*l as i128)],
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                arr![s("assume"), sp, self.operand(o)]
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let t = c.src.ty(locals).unwrap();
                arr![s("copyno"), sp, self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), self.ty(t)]
            }
            _ => return None,
        })
    }

    fn body(&mut self, inst: Instance) -> J {
        let krate = inst.def.krate().name;
        let name = inst.name();
        let kind = format!("{:?}", inst.kind);
        let intr = inst.intrinsic_name();
        let defname = inst.def.name();
        let mut o = vec![
            ("name".to_string(), s(&name)),
            ("def".to_string(), s(&defname)),
            ("krate".to_string(), s(&krate)),
            ("kind".to_string(), s(kind.split('(').next().unwrap())),
            ("span".to_string(), self.span(inst.def.span())),
        ];
        if let Some(i) = intr {
            o.push(("intrinsic".into(), s(i)));
        }
        let mut ga = vec![];
        for a in &inst.args().0 {
            match a {
                GenericArgKind::Type(t) => ga.push(arr![s("t"), self.ty(*t)]),
                GenericArgKind::Const(c) => ga.push(arr![s("c"), n(c.eval_target_usize().unwrap_or(0) as i128)]),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        o.push(("gargs".into(), J::A(ga)));
        if inst.is_empty_shim() {
            o.push(("empty".into(), J::B(true)));
            return J::O(o);
        }
        // harness primitives are interpreted by name: their bodies are not needed
        if defname.contains("intr::") && (krate == "harness") {
            o.push(("prim".into(), J::B(true)));
        }
        if inst.intrinsic_name().is_some() && inst.kind == InstanceKind::Intrinsic {
            return J::O(o);
        }
        if let Some(b) = inst.body() {
            let locals: Vec<LocalDecl> = b.locals().to_vec();
            let lj = locals.iter().map(|l| self.ty(l.ty)).collect();
            o.push(("locals".into(), J::A(lj)));
            o.push(("argc".into(), n(b.arg_locals().len() as i128)));
            o.push(("spread".into(), b.spread_arg().map(|x| n(x as i128)).unwrap_or(J::Null)));
            let mut bl = vec![];
            for bb in &b.blocks {
                let st: Vec<J> = bb.statements.iter().filter_map(|x| self.statement(x, &locals)).collect();
                let t = self.terminator(&bb.terminator, &locals);
                bl.push(arr![J::A(st), t]);
            }
            o.push(("blocks".into(), J::A(bl)));
            let mut dbg = vec![];
            for v in &b.var_debug_info {
                if let VarDebugInfoContents::Place(p) = &v.value {
                    if p.projection.is_empty() {
                        dbg.push(arr![n(p.local as i128), s(&v.name)]);
                    }
                }
            }
            o.push(("dbg".into(), J::A(dbg)));
        }
        J::O(o)
    }
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>) {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cx = Ctx {
        ty_ids: HashMap::new(),
        tys: vec![],
        ty_queue: vec![],
        inst_ids: HashMap::new(),
        insts: vec![],
        alloc_ids: HashMap::new(),
        allocs: vec![],
        alloc_queue: vec![],
        files: HashMap::new(),
        file_list: vec![],
    };
    let local = rustc_public::local_crate();
    let mut roots = vec![];
    for f in local.fn_defs() {
        let name = f.name();
        let base = name.rsplit("::").next().unwrap().to_string();
        if !(base.starts_with("claim") || base.starts_with("root")) {
            continue;
        }
        let generics = f.generics_of();
        if !generics.params.is_empty() {
            continue;
        }
        if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
            let id = cx.inst(i);
            roots.push(arr![s(&name), id]);
        }
    }
    // structs whose layout is of interest: every ADT of the analysed crate
    let mut adts = vec![];
    let mut statics = vec![];
    let mut fns = vec![];
    for k in rustc_public::find_crates("embedded_audio_tools") {
        for a in k.adts() {
            let gen = a.generics_of();
            let hir = tcx_vis(tcx, a.def_id());
            let fv = adt_field_vis(tcx, a.def_id());
            let mut e = vec![
                ("name".to_string(), s(a.name())),
                ("repr".into(), s(format!("{:?}", a.repr()))),
                ("vis".into(), s(hir)),
                ("generic".into(), n(gen.params.len() as i128)),
                ("fields".into(), fv),
            ];
            if gen.params.is_empty() {
                let t = a.ty();
                e.push(("ty".into(), cx.ty(t)));
            }
            adts.push(J::O(e));
        }
        for st in k.statics() {
            statics.push(obj! {"name": s(st.name()), "ty": cx.ty(st.ty()), "mutable": J::B(is_mut_static(tcx, st.def_id()))});
        }
        for f in k.fn_defs() {
            let sig = f.fn_sig().skip_binder();
            let sp = cx.span(f.span());
            fns.push(obj! {"name": s(f.name()), "vis": s(tcx_vis(tcx, f.def_id())), "unsafe": J::B(format!("{:?}", sig.safety) == "Unsafe"),
            "generic": n(f.generics_of().params.len() as i128), "span": sp, "body": J::B(f.has_body()), "reach": J::B(effectively_public(tcx, f.def_id()))});
        }
    }
    let mut bodies = vec![];
    let mut i = 0;
    loop {
        cx.drain_types();
        cx.drain_allocs();
        if i < cx.insts.len() {
            let inst = cx.insts[i];
            i += 1;
            let b = cx.body(inst);
            bodies.push(b);
        } else if cx.ty_queue.is_empty() && cx.alloc_queue.is_empty() {
            break;
        }
    }
    let j = obj! {
        "roots": J::A(roots), "fns": J::A(bodies), "types": J::A(cx.tys), "allocs": J::A(cx.allocs),
        "files": J::A(cx.file_list), "adts": J::A(adts), "statics": J::A(statics), "inventory": J::A(fns)
    };
    std::fs::write(&out, j.to_string()).expect("write");
}

fn internal(def: rustc_public::DefId, tcx: rustc_middle::ty::TyCtxt<'_>) -> rustc_span::def_id::DefId {
    rustc_public::rustc_internal::internal(tcx, def)
}
fn tcx_vis(tcx: rustc_middle::ty::TyCtxt<'_>, d: rustc_public::DefId) -> String {
    let id = internal(d, tcx);
    match tcx.visibility(id) {
        rustc_middle::ty::Visibility::Public => "pub".into(),
        _ => "restricted".into(),
    }
}
fn effectively_public(_tcx: rustc_middle::ty::TyCtxt<'_>, _d: rustc_public::DefId) -> bool {
    false
}
fn adt_field_vis(tcx: rustc_middle::ty::TyCtxt<'_>, d: rustc_public::DefId) -> J {
    let id = internal(d, tcx);
    let adt = tcx.adt_def(id);
    J::A(adt.all_fields().map(|f| arr![s(f.name.to_string()), s(if f.vis.is_public() {"pub"} else {"restricted"})]).collect())
}
fn is_mut_static(tcx: rustc_middle::ty::TyCtxt<'_>, d: rustc_public::DefId) -> bool {
    let id = internal(d, tcx);
    let frozen = tcx
        .type_of(id)
        .instantiate_identity()
        .skip_norm_wip()
        .is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
    tcx.is_mutable_static(id) || !frozen
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: rustc_middle::ty::TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let r = rustc_public::rustc_internal::run(tcx, || dump(tcx));
        if let Err(e) = r {
            eprintln!("mirdump: {e:?}");
            std::process::exit(3);
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[1] is rustc when used as a wrapper
    args.remove(1);
    let mut crate_name = String::new();
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" {
            crate_name = args.get(i + 1).cloned().unwrap_or_default();
        }
    }
    if crate_name == "harness" && std::env::var("MIRDUMP_OUT").is_ok() {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        let st = std::process::Command::new(std::env::args().nth(1).unwrap())
            .args(&args[1..])
            .status()
            .expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
