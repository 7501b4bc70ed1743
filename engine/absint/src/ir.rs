//! The dumped MIR.
use crate::z::Z;
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub struct Variant {
    pub name: String,
    pub discr: Z,
    pub fields: Vec<usize>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum AdtKind {
    Struct,
    Enum,
    Union,
}
#[derive(Debug, Clone)]
pub enum TyK {
    Bool,
    Char,
    Int { bits: u32, signed: bool },
    Float,
    Adt { kind: AdtKind, name: String, vs: Vec<Variant>, fieldless: bool },
    Tuple(Vec<usize>),
    Array(usize, u64),
    Slice(usize),
    Str,
    Ptr { e: usize, raw: bool },
    FnDef(Option<usize>),
    FnPtr,
    Closure(Vec<usize>),
    Never,
    Dyn,
    Pat(usize),
    Other,
}
#[derive(Debug, Clone)]
pub struct Ty {
    pub k: TyK,
    pub size: Option<u64>,
    pub align: u64,
    pub s: String,
}
#[derive(Debug, Clone)]
pub enum CV {
    Int(Z),
    Agg(u32, Vec<CV>),
    Ptr(usize, Option<u64>),
    Fn(usize),
    Union(Vec<CV>),
    Zst,
    Undef,
    Opaque,
}
#[derive(Debug, Clone)]
pub enum Proj {
    Deref,
    Field(u32, usize),
    Index(usize),
    CIdx(u64, u64, bool),
    Sub(u64, u64, bool),
    Down(u32),
    Other,
}
#[derive(Debug, Clone)]
pub struct Place {
    pub local: usize,
    pub proj: Vec<Proj>,
}
#[derive(Debug, Clone)]
pub enum Op {
    Use(Place),
    K(CV, usize),
    RtCheck(String),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum B {
    Add, AddU, Sub, SubU, Mul, MulU, Div, Rem, Xor, And, Or, Shl, ShlU, Shr, ShrU, Eq, Lt, Le, Ne, Ge, Gt, Cmp, Offset,
}
#[derive(Debug, Clone)]
pub enum Rv {
    Use(Op),
    Ref(Place),
    Bin(B, Op, Op),
    CBin(B, Op, Op),
    Not(Op),
    Neg(Op),
    PtrMeta(Op),
    Cast(String, Op, usize),
    Agg(u32, Vec<Op>, bool, bool), // variant, ops, is_adt, is union/active
    RawPtr(Op, Op),
    Discr(Place),
    Len(Place),
    Repeat(Op, u64),
    Unsup(String),
}
#[derive(Debug, Clone)]
pub enum St {
    Assign(Place, Rv),
    SetDiscr(Place, u32),
    Cno(Op, Op, Op),
}
#[derive(Debug, Clone)]
pub enum Callee {
    Fn(usize),
    Ind(Op),
    Unres(String),
}
#[derive(Debug, Clone)]
pub enum Term {
    Goto(usize),
    Switch(Op, Vec<(Z, usize)>, usize),
    Ret,
    Resume,
    Unreachable,
    Drop(Place, usize, Option<usize>),
    Call(Callee, Vec<Op>, Place, Option<usize>),
    Assert(Op, bool, String, usize),
    Unsup(String),
}
#[derive(Debug, Clone)]
pub struct Block {
    pub s: Vec<(St, u32)>,
    pub t: Term,
    pub line: u32,
    pub file: String,
}
#[derive(Debug, Clone)]
pub struct Fun {
    pub name: String,
    pub krate: String,
    pub kind: String,
    pub intrinsic: Option<String>,
    pub gargs: Vec<usize>,
    pub file: String,
    pub line: u32,
    pub closure: bool,
    pub argc: usize,
    pub locals: Vec<usize>,
    pub blocks: Vec<Block>,
}
pub struct Global {
    pub v: CV,
    pub ty: usize,
    pub mutable: bool,
}
pub struct Ir {
    pub types: Vec<Ty>,
    pub fns: Vec<Fun>,
    pub globals: Vec<Global>,
    pub entries: BTreeMap<String, usize>,
}

fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn cv(v: &Value) -> CV {
    match v[0].as_str().unwrap() {
        "i" => CV::Int(Z::parse(v[1].as_str().unwrap())),
        "a" => CV::Agg(us(&v[1]) as u32, v[2].as_array().unwrap().iter().map(cv).collect()),
        "p" => CV::Ptr(us(&v[1]), v[2].as_u64()),
        "fn" => CV::Fn(us(&v[1])),
        "un" => CV::Union(v[1].as_array().unwrap().iter().map(cv).collect()),
        "z" => CV::Zst,
        "u" => CV::Undef,
        _ => CV::Opaque,
    }
}
fn place(v: &Value) -> Place {
    Place {
        local: us(&v[0]),
        proj: v[1]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| match p[0].as_str().unwrap() {
                "*" => Proj::Deref,
                "f" => Proj::Field(us(&p[1]) as u32, us(&p[2])),
                "i" => Proj::Index(us(&p[1])),
                "ci" => Proj::CIdx(p[1].as_u64().unwrap(), p[2].as_u64().unwrap(), p[3].as_bool().unwrap()),
                "ss" => Proj::Sub(p[1].as_u64().unwrap(), p[2].as_u64().unwrap(), p[3].as_bool().unwrap()),
                "d" => Proj::Down(us(&p[1]) as u32),
                _ => Proj::Other,
            })
            .collect(),
    }
}
fn op(v: &Value) -> Op {
    if let Some(p) = v.get("c").or(v.get("m")) {
        Op::Use(place(p))
    } else if let Some(r) = v.get("rc") {
        Op::RtCheck(r.as_str().unwrap().into())
    } else {
        Op::K(cv(&v["k"]), us(&v["ty"]))
    }
}
fn bin(s: &str) -> B {
    match s {
        "Add" => B::Add, "AddUnchecked" => B::AddU, "Sub" => B::Sub, "SubUnchecked" => B::SubU,
        "Mul" => B::Mul, "MulUnchecked" => B::MulU, "Div" => B::Div, "Rem" => B::Rem,
        "BitXor" => B::Xor, "BitAnd" => B::And, "BitOr" => B::Or, "Shl" => B::Shl, "ShlUnchecked" => B::ShlU,
        "Shr" => B::Shr, "ShrUnchecked" => B::ShrU, "Eq" => B::Eq, "Lt" => B::Lt, "Le" => B::Le, "Ne" => B::Ne,
        "Ge" => B::Ge, "Gt" => B::Gt, "Cmp" => B::Cmp, "Offset" => B::Offset,
        _ => panic!("binop {s}"),
    }
}
fn rv(v: &Value) -> Rv {
    match v[0].as_str().unwrap() {
        "use" => Rv::Use(op(&v[1])),
        "ref" => Rv::Ref(place(&v[1])),
        "bin" => Rv::Bin(bin(v[1].as_str().unwrap()), op(&v[2]), op(&v[3])),
        "cbin" => Rv::CBin(bin(v[1].as_str().unwrap()), op(&v[2]), op(&v[3])),
        "un" => match v[1].as_str().unwrap() {
            "Not" => Rv::Not(op(&v[2])),
            "Neg" => Rv::Neg(op(&v[2])),
            _ => Rv::PtrMeta(op(&v[2])),
        },
        "cast" => Rv::Cast(v[1].as_str().unwrap().into(), op(&v[2]), us(&v[3])),
        "agg" => {
            let k = v[1].as_str().unwrap();
            let ops: Vec<Op> = v[3].as_array().unwrap().iter().map(op).collect();
            if k == "rawptr" {
                let mut i = ops.into_iter();
                return Rv::RawPtr(i.next().unwrap(), i.next().unwrap());
            }
            Rv::Agg(us(&v[2]) as u32, ops, k == "adt", v.get(4).map_or(false, |x| !x.is_null()))
        }
        "discr" => Rv::Discr(place(&v[1])),
        "len" => Rv::Len(place(&v[1])),
        "repeat" => Rv::Repeat(op(&v[1]), v[2].as_u64().unwrap()),
        s => Rv::Unsup(s.into()),
    }
}
fn term(v: &Value) -> Term {
    match v[0].as_str().unwrap() {
        "goto" => Term::Goto(us(&v[1])),
        "switch" => Term::Switch(
            op(&v[1]),
            v[2].as_array().unwrap().iter().map(|b| (Z::parse(b[0].as_str().unwrap()), us(&b[1]))).collect(),
            us(&v[3]),
        ),
        "ret" => Term::Ret,
        "resume" => Term::Resume,
        "unreachable" => Term::Unreachable,
        "drop" => Term::Drop(place(&v[1]), us(&v[2]), v[3].as_u64().map(|x| x as usize)),
        "call" => Term::Call(
            match v[1][0].as_str().unwrap() {
                "fn" => Callee::Fn(us(&v[1][1])),
                "ind" => Callee::Ind(op(&v[1][1])),
                _ => Callee::Unres(v[1][1].to_string()),
            },
            v[2].as_array().unwrap().iter().map(op).collect(),
            place(&v[3]),
            v[4].as_u64().map(|x| x as usize),
        ),
        "assert" => Term::Assert(op(&v[1]), v[2].as_bool().unwrap(), v[3].as_str().unwrap().into(), us(&v[4])),
        s => Term::Unsup(s.into()),
    }
}
fn vec_us(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(us).collect()).unwrap_or_default()
}

pub fn load(path: &str) -> Ir {
    let j: Value = serde_json::from_slice(&std::fs::read(path).expect("dump")).expect("json");
    let types = j["types"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| {
            let k = match t["k"].as_str().unwrap() {
                "bool" => TyK::Bool,
                "char" => TyK::Char,
                "int" => TyK::Int { bits: us(&t["bits"]) as u32, signed: t["signed"].as_bool().unwrap() },
                "float" => TyK::Float,
                k @ ("struct" | "enum" | "union") => {
                    let vs: Vec<Variant> = t["v"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|v| {
                            let d: u128 = v["d"].as_str().unwrap().parse().unwrap();
                            Variant { name: v["n"].as_str().unwrap().into(), discr: Z::u(d), fields: vec_us(&v["f"]) }
                        })
                        .collect();
                    let fieldless = k == "enum" && !vs.is_empty() && vs.iter().all(|v| v.fields.is_empty());
                    TyK::Adt {
                        kind: match k {
                            "struct" => AdtKind::Struct,
                            "enum" => AdtKind::Enum,
                            _ => AdtKind::Union,
                        },
                        name: t["name"].as_str().unwrap().into(),
                        vs,
                        fieldless,
                    }
                }
                "str" => TyK::Str,
                "array" => TyK::Array(us(&t["e"]), t["n"].as_u64().unwrap()),
                "pat" => TyK::Pat(us(&t["e"])),
                "slice" => TyK::Slice(us(&t["e"])),
                "ptr" => TyK::Ptr { e: us(&t["e"]), raw: t["raw"].as_bool().unwrap() },
                "fndef" => TyK::FnDef(t["fn"].as_u64().map(|x| x as usize)),
                "fnptr" => TyK::FnPtr,
                "closure" => TyK::Closure(vec_us(&t["f"])),
                "dyn" => TyK::Dyn,
                "never" => TyK::Never,
                "tuple" => TyK::Tuple(vec_us(&t["f"])),
                _ => TyK::Other,
            };
            Ty { k, size: t["size"].as_u64(), align: t["align"].as_u64().unwrap_or(1), s: t["s"].as_str().unwrap_or("").into() }
        })
        .collect::<Vec<Ty>>();
    let fns = j["fns"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| Fun {
            name: f["name"].as_str().unwrap().into(),
            krate: f["crate"].as_str().unwrap().into(),
            kind: f["kind"].as_str().unwrap().into(),
            intrinsic: f["intrinsic"].as_str().map(|s| s.into()),
            gargs: vec_us(&f["gargs"]),
            file: f["file"].as_str().unwrap_or("").into(),
            line: f["line"].as_u64().unwrap_or(0) as u32,
            closure: f["closure"].as_bool().unwrap_or(false),
            argc: f["argc"].as_u64().unwrap_or(0) as usize,
            locals: vec_us(&f["locals"]),
            blocks: f["blocks"]
                .as_array()
                .map(|a| {
                    a.iter()
                        .map(|b| Block {
                            s: b["s"]
                                .as_array()
                                .unwrap()
                                .iter()
                                .map(|s| {
                                    let x = &s[0];
                                    let st = match x[0].as_str().unwrap() {
                                        "=" => St::Assign(place(&x[1]), rv(&x[2])),
                                        "sd" => St::SetDiscr(place(&x[1]), us(&x[2]) as u32),
                                        _ => St::Cno(op(&x[1]), op(&x[2]), op(&x[3])),
                                    };
                                    (st, s[1].as_u64().unwrap() as u32)
                                })
                                .collect(),
                            t: term(&b["t"]),
                            line: b["l"].as_u64().unwrap() as u32,
                            file: b["f"].as_str().unwrap().into(),
                        })
                        .collect()
                })
                .unwrap_or_default(),
        })
        .collect();
    let globals = j["globals"]
        .as_array()
        .unwrap()
        .iter()
        .map(|g| {
            if g.is_null() {
                Global { v: CV::Opaque, ty: 0, mutable: false }
            } else {
                Global { v: cv(&g["v"]), ty: us(&g["ty"]), mutable: g["mut"].as_bool().unwrap_or(false) }
            }
        })
        .collect();
    let entries = j["entries"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), us(v))).collect();
    Ir { types, fns, globals, entries }
}
