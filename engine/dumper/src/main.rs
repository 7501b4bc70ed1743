//! MIR dumper: a rustc_public driver used as RUSTC_WORKSPACE_WRAPPER.
//! For the crate named `probe` it walks all functions reachable from `entry_*`
//! functions, fully resolved and monomorphised, and writes them as JSON to $DUMP_OUT.
//! For every other crate it just runs the real rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::ops::ControlFlow;

struct D {
    tys: HashMap<Ty, usize>,
    types: Vec<Value>,
    fns: HashMap<Instance, usize>,
    fn_list: Vec<Instance>,
    globals: HashMap<(String, usize, u64, i64), usize>,
    glist: Vec<Value>,
}

impl D {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.tys.insert(t, id);
        self.types.push(Value::Null);
        let size = t.layout().ok().map(|l| l.shape()).filter(|s| s.is_sized()).map(|s| s.size.bytes());
        let mut v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","bits":i.num_bytes()*8,"signed":true}),
                RigidTy::Uint(i) => json!({"k":"int","bits":i.num_bytes()*8,"signed":false}),
                RigidTy::Float(_) => json!({"k":"float"}),
                RigidTy::Adt(def, args) => {
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = vec![];
                    for v in def.variants() {
                        let d = if kind == "enum" { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        let fs: Vec<_> = v.fields().iter().map(|f| self.ty(f.ty_with_args(&args))).collect();
                        let ns: Vec<_> = v.fields().iter().map(|f| f.name.to_string()).collect();
                        vs.push(json!({"n":v.name().to_string(),"d":d,"f":fs,"fn":ns}));
                    }
                    json!({"k":kind,"name":def.name().to_string(),"v":vs,"full":format!("{}", t)})
                }
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Array(e, n) => json!({"k":"array","e":self.ty(e),"n":n.eval_target_usize().unwrap_or(u64::MAX)}),
                RigidTy::Pat(e, _) => json!({"k":"pat","e":self.ty(e)}),
                RigidTy::Slice(e) => json!({"k":"slice","e":self.ty(e)}),
                RigidTy::RawPtr(e, m) => json!({"k":"ptr","e":self.ty(e),"raw":true,"mut":m==Mutability::Mut}),
                RigidTy::Ref(_, e, m) => json!({"k":"ptr","e":self.ty(e),"raw":false,"mut":m==Mutability::Mut}),
                RigidTy::FnDef(def, args) => {
                    let f = Instance::resolve(def, &args).ok().map(|i| self.func(i));
                    json!({"k":"fndef","fn":f})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(def, args) => {
                    let mut ups = vec![];
                    if let Some(last) = args.0.last() {
                        if let GenericArgKind::Type(t) = last {
                            if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                                ups = ts.iter().map(|t| self.ty(*t)).collect();
                            }
                        }
                    }
                    json!({"k":"closure","name":def.name().to_string(),"f":ups})
                }
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Tuple(ts) => {
                    let fs: Vec<_> = ts.iter().map(|t| self.ty(*t)).collect();
                    json!({"k":"tuple","f":fs})
                }
                _ => json!({"k":"other"}),
            },
            _ => json!({"k":"other"}),
        };
        v["size"] = json!(size);
        if let Ok(l) = t.layout() {
            let s = l.shape();
            v["align"] = json!(s.abi_align);
            if let FieldsShape::Arbitrary { offsets } = &s.fields {
                if let VariantsShape::Single { .. } = s.variants {
                    v["off"] = json!(offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>());
                }
            }
        }
        v["s"] = json!(format!("{}", t));
        self.types[id] = v;
        id
    }

    fn func(&mut self, i: Instance) -> usize {
        if let Some(&k) = self.fns.get(&i) {
            return k;
        }
        let k = self.fn_list.len();
        self.fns.insert(i, k);
        self.fn_list.push(i);
        k
    }

    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for j in 0..n {
            v |= ((*a.bytes.get(off + j)?)? as u128) << (8 * j);
        }
        Some(v)
    }

    fn global(&mut self, id: rustc_public::mir::alloc::AllocId, off: usize, ty: Ty, len: Option<u64>) -> Value {
        let tid = self.ty(ty);
        let key = (format!("{:?}", id), tid, off as u64, len.map_or(-1, |l| l as i64));
        if let Some(&g) = self.globals.get(&key) {
            return json!(["p", g, len]);
        }
        let mut stat = None;
        let (alloc, mutable) = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => { let m = a.mutability == Mutability::Mut; (a, m) }
            GlobalAlloc::Static(s) => match s.eval_initializer() {
                // interior mutability makes the initial allocation mutable as well
                Ok(a) => { stat = Some(s.name().to_string()); let m = a.mutability == Mutability::Mut; (a, m) }
                Err(_) => return json!(["o"]),
            },
            GlobalAlloc::Function(i) => {
                let f = self.func(i);
                return json!(["fn", f]);
            }
            _ => return json!(["o"]),
        };
        let g = self.glist.len();
        self.globals.insert(key, g);
        self.glist.push(Value::Null);
        let v = match (ty.kind(), len) {
            (TyKind::RigidTy(RigidTy::Slice(e)), Some(n)) => self.arr(&alloc, off, e, n),
            (TyKind::RigidTy(RigidTy::Str), Some(n)) => {
                let mut v = vec![];
                for j in 0..n as usize {
                    v.push(json!(["i", Self::uint(&alloc, off + j, 1).unwrap_or(0).to_string()]));
                }
                json!(["a", 0, v])
            }
            _ => self.decode(&alloc, off, ty),
        };
        self.glist[g] = json!({"v":v,"ty":tid,"mut":mutable,"static":stat});
        json!(["p", g, len])
    }

    fn arr(&mut self, a: &Allocation, off: usize, e: Ty, n: u64) -> Value {
        let sz = e.layout().unwrap().shape().size.bytes();
        if n > 1 << 16 {
            return json!(["o"]);
        }
        let v: Vec<_> = (0..n as usize).map(|j| self.decode(a, off + j * sz, e)).collect();
        json!(["a", 0, v])
    }

    fn decode(&mut self, a: &Allocation, off: usize, ty: Ty) -> Value {
        let shape = match ty.layout() {
            Ok(l) => l.shape(),
            Err(_) => return json!(["o"]),
        };
        let size = shape.size.bytes();
        let kind = match ty.kind() {
            TyKind::RigidTy(k) => k,
            _ => return json!(["o"]),
        };
        match kind {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Int(_) => match Self::uint(a, off, size) {
                Some(v) => {
                    if a.provenance.ptrs.iter().any(|(o, _)| o.clone() == off) {
                        return json!(["o"]);
                    }
                    if let RigidTy::Int(_) = kind {
                        let sh = 128 - 8 * size as u32;
                        json!(["i", (((v << sh) as i128) >> sh).to_string()])
                    } else {
                        json!(["i", v.to_string()])
                    }
                }
                None => json!(["u"]),
            },
            RigidTy::Pat(e, _) => self.decode(a, off, e),
            RigidTy::Float(_) => json!(["f", Self::uint(a, off, size).unwrap_or(0).to_string()]),
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return json!(["a", 0, []]) };
                let v: Vec<_> = ts.iter().enumerate().map(|(i, t)| self.decode(a, off + offsets[i].bytes(), *t)).collect();
                json!(["a", 0, v])
            }
            RigidTy::Closure(_, args) => {
                let mut ups = vec![];
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                        ups = ts;
                    }
                }
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return json!(["a", 0, []]) };
                let v: Vec<_> = ups.iter().enumerate().map(|(i, t)| self.decode(a, off + offsets[i].bytes(), *t)).collect();
                json!(["a", 0, v])
            }
            RigidTy::Array(e, n) => self.arr(a, off, e, n.eval_target_usize().unwrap_or(u64::MAX)),
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union {
                    // try every field: the largest that decodes
                    let fs = def.variants()[0].fields();
                    let v: Vec<_> = fs.iter().map(|f| self.decode(a, off, f.ty_with_args(&args))).collect();
                    return json!(["un", v]);
                }
                let (vidx, offsets): (VariantIdx, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return json!(["o"]),
                    VariantsShape::Single { index } => {
                        let o = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![],
                        };
                        (*index, o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return json!(["o"]) };
                        let toff = off + offsets[*tag_field].bytes();
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => match value {
                                rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                                rustc_public::abi::Primitive::Pointer(_) => 8,
                                _ => return json!(["o"]),
                            },
                        };
                        let tagv = match Self::uint(a, toff, tsz) { Some(t) => t, None => return json!(["u"]) };
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                        let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                        let n = def.num_variants();
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                match (0..n).find(|&i| def.discriminant_for_variant(VariantIdx::to_val(i)).val & mask == tagv) {
                                    Some(i) => i,
                                    None => return json!(["o"]),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let s = niche_variants.start().to_index();
                                let e = niche_variants.end().to_index();
                                let rel = tagv.wrapping_sub(*niche_start) & mask;
                                if !has_prov && rel <= (e - s) as u128 { s + rel as usize } else { untagged_variant.to_index() }
                            }
                        };
                        (VariantIdx::to_val(vi), variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let fs = def.variant(vidx).unwrap().fields();
                let v: Vec<_> = fs.iter().enumerate().map(|(i, f)| self.decode(a, off + offsets[i], f.ty_with_args(&args))).collect();
                json!(["a", vidx.to_index(), v])
            }
            RigidTy::RawPtr(e, _) | RigidTy::Ref(_, e, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let Some(addr) = Self::uint(a, off, 8) else { return json!(["u"]) };
                match prov {
                    None => json!(["i", addr.to_string()]),
                    Some(id) => {
                        let len = if size == 16 { Self::uint(a, off + 8, 8).map(|x| x as u64) } else { None };
                        if size == 16 {
                            if a.provenance.ptrs.iter().any(|(o, _)| *o == off + 8) {
                                return json!(["o"]);
                            }
                        }
                        self.global(id, addr as usize, e, len)
                    }
                }
            }
            RigidTy::FnDef(..) => json!(["z"]),
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                match prov.map(GlobalAlloc::from) {
                    Some(GlobalAlloc::Function(i)) => { let f = self.func(i); json!(["fn", f]) }
                    _ => json!(["o"]),
                }
            }
            _ => json!(["o"]),
        }
    }

    fn constant(&mut self, c: &ConstOperand) -> Value {
        let ty = c.const_.ty();
        let t = self.ty(ty);
        let v = match c.const_.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, ty),
            ConstantKind::ZeroSized => json!(["z"]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty2, a) => self.decode(a, 0, *ty2),
                TyConstKind::ZSTValue(_) => json!(["z"]),
                _ => json!(["o"]),
            },
            _ => json!(["o"]),
        };
        json!({"k":v,"ty":t})
    }

    fn place(&mut self, p: &Place) -> Value {
        let pr: Vec<Value> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => json!(["*"]),
            ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
            ProjectionElem::Index(l) => json!(["i", l]),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["ci", offset, min_length, from_end]),
            ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
            ProjectionElem::Downcast(v) => json!(["d", v.to_index()]),
            ProjectionElem::OpaqueCast(t) => json!(["oc", self.ty(*t)]),
        }).collect();
        json!([p.local, pr])
    }

    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!({"c": self.place(p)}),
            Operand::Move(p) => json!({"m": self.place(p)}),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(r) => json!({"rc": format!("{:?}", r)}),
        }
    }

    fn rv(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::Use(o, _) => json!(["use", self.op(o)]),
            Rvalue::Ref(_, bk, p) => json!(["ref", self.place(p), format!("{:?}", bk).starts_with("Mut")]),
            Rvalue::AddressOf(_, p) => json!(["ref", self.place(p), true]),
            Rvalue::BinaryOp(b, x, y) => json!(["bin", format!("{:?}", b), self.op(x), self.op(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => json!(["cbin", format!("{:?}", b), self.op(x), self.op(y)]),
            Rvalue::UnaryOp(u, x) => json!(["un", format!("{:?}", u), self.op(x)]),
            Rvalue::Cast(k, x, t) => json!(["cast", format!("{:?}", k), self.op(x), self.ty(*t)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<_> = ops.iter().map(|o| self.op(o)).collect();
                match k {
                    AggregateKind::Array(_) => json!(["agg", "array", 0, v]),
                    AggregateKind::Tuple => json!(["agg", "tuple", 0, v]),
                    AggregateKind::Adt(_, vi, _, _, af) => json!(["agg", "adt", vi.to_index(), v, af]),
                    AggregateKind::Closure(..) => json!(["agg", "closure", 0, v]),
                    AggregateKind::RawPtr(t, _) => json!(["agg", "rawptr", self.ty(*t), v]),
                    _ => json!(["unsup", "aggregate"]),
                }
            }
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.op(o), n.eval_target_usize().unwrap_or(u64::MAX)]),
            Rvalue::CopyForDeref(p) => json!(["use", {"c": self.place(p)}]),
            Rvalue::Reborrow(_, _, p) => json!(["use", {"c": self.place(p)}]),
            Rvalue::ThreadLocalRef(_) => json!(["unsup", "threadlocal"]),
        }
    }

    fn dump_fn(&mut self, i: Instance) -> Value {
        let name = i.name().to_string();
        let krate = i.def.krate().name.to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let intr = i.intrinsic_name().map(|s| s.to_string());
        let gargs: Vec<_> = i.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(self.ty(*t)) } else { None }).collect();
        let span = i.def.span();
        let unsf = i.ty().kind().fn_sig().map_or(false, |s| s.skip_binder().safety == Safety::Unsafe);
        let closure = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let mut v = json!({"name":name,"crate":krate,"kind":kind,"intrinsic":intr,"gargs":gargs,
            "file": span.get_filename().to_string(), "line": span.get_lines().start_line, "closure": closure, "unsafe": unsf, "foreign": i.is_foreign_item()});
        if closure && i.kind != InstanceKind::Shim {
            // self + args
        }
        if i.kind == InstanceKind::Intrinsic || i.kind == InstanceKind::LlvmIntrinsic || matches!(i.kind, InstanceKind::Virtual { .. }) {
            return v;
        }
        // functions that only build panic messages / formatting machinery are not descended into
        let body = match i.body() {
            Some(b) => b,
            None => return v,
        };
        let locals: Vec<_> = body.locals().iter().map(|l| self.ty(l.ty)).collect();
        v["argc"] = json!(body.arg_locals().len());
        v["spread"] = json!(body.spread_arg());
        let mut blocks = vec![];
        let here = span.get_filename().to_string();
        for b in &body.blocks {
            let mut st = vec![];
            for s in &b.statements {
                let sv = match &s.kind {
                    StatementKind::Assign(p, r) => json!(["=", self.place(p), self.rv(r)]),
                    StatementKind::SetDiscriminant { place, variant_index } => json!(["sd", self.place(place), variant_index.to_index()]),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => json!(["cno", self.op(&c.src), self.op(&c.dst), self.op(&c.count)]),
                    StatementKind::StorageLive(_) | StatementKind::StorageDead(_) => continue,
                    _ => continue,
                };
                let sf = s.source_info.span.get_filename().to_string();
                st.push(if sf == here { json!([sv, s.source_info.span.get_lines().start_line]) } else { json!([sv, s.source_info.span.get_lines().start_line, sf]) });
            }
            let line = b.terminator.source_info.span.get_lines().start_line;
            let file = b.terminator.source_info.span.get_filename().to_string();
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<_> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                    json!(["switch", self.op(discr), br, targets.otherwise()])
                }
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Resume | TerminatorKind::Abort => json!(["resume"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Drop { place, target, .. } => {
                    // `place.ty` would need locals; drop glue is looked up for the effect analysis
                    let t = place.ty(body.locals()).ok();
                    let f = t.and_then(|t| { let i = Instance::resolve_drop_in_place(t); if i.is_empty_shim() { None } else { Some(self.func(i)) } });
                    json!(["drop", self.place(place), target, f])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(body.locals()).ok().map(|t| t.kind());
                    let callee = match fty {
                        Some(TyKind::RigidTy(RigidTy::FnDef(def, a))) => match Instance::resolve(def, &a) {
                            Ok(i) => json!(["fn", self.func(i)]),
                            Err(_) => json!(["unres", format!("{:?}", def.name())]),
                        },
                        _ => json!(["ind", self.op(func)]),
                    };
                    let a: Vec<_> = args.iter().map(|o| self.op(o)).collect();
                    json!(["call", callee, a, self.place(destination), target])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(b, ..) => format!("overflow {:?}", b),
                        AssertMessage::OverflowNeg(_) => "overflow Neg".into(),
                        AssertMessage::DivisionByZero(_) => "div0".into(),
                        AssertMessage::RemainderByZero(_) => "rem0".into(),
                        o => format!("{:?}", o).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(),
                    };
                    json!(["assert", self.op(cond), expected, m, target])
                }
                TerminatorKind::InlineAsm { .. } => json!(["unsup", "asm"]),
            };
            blocks.push(json!({"s":st,"t":t,"l":line,"f":file}));
        }
        v["locals"] = json!(locals);
        v["blocks"] = json!(blocks);
        v
    }
}

fn go() -> ControlFlow<()> {
    let mut d = D { tys: HashMap::new(), types: vec![], fns: HashMap::new(), fn_list: vec![], globals: HashMap::new(), glist: vec![] };
    let mut entries = serde_json::Map::new();
    for item in rustc_public::all_local_items() {
        if item.kind() != ItemKind::Fn || item.requires_monomorphization() {
            continue;
        }
        let name = item.name().to_string();
        let short = name.rsplit("::").next().unwrap().to_string();
        if short.starts_with("entry_") || name.contains("::entries::") {
            let inst = Instance::try_from(item).unwrap();
            let id = d.func(inst);
            entries.insert(name, json!(id));
        }
    }
    let mut out = vec![];
    let mut k = 0;
    while k < d.fn_list.len() {
        let i = d.fn_list[k];
        k += 1;
        let v = d.dump_fn(i);
        out.push(v);
    }
    // unsafe census for the effect analysis: every fn item of the analysed crate
    let j = json!({"types": d.types, "fns": out, "globals": d.glist, "entries": entries});
    let path = std::env::var("DUMP_OUT").expect("DUMP_OUT");
    std::fs::write(path, serde_json::to_vec(&j).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let is_probe = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "probe");
    if !is_probe {
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args.remove(0);
    let r: Result<(), _> = rustc_public::run!(&args, go);
    if r.is_err() {
        std::process::exit(1);
    }
}
