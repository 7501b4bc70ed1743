//! Abstract interpreter over the dumped MIR.
//!
//! An abstract state is a call stack of typed cells plus interval/affine facts.  Every statement
//! has a transfer function; a branch whose condition the domain does not decide partitions the
//! state (trace partitioning), each part keeping the facts of its side.
use crate::ir::*;
use crate::term::*;
use crate::z::Z;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Agg {
    pub var: u32,
    pub f: Vec<V>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Base {
    Local(u32, u32),
    Global(u32),
    Addr(TermId),
}
#[derive(Clone, Debug, PartialEq)]
pub enum S {
    F(u32),
    D(u32),
    I(i64),
    Off(i64),
}
#[derive(Clone, Debug, PartialEq)]
pub struct P {
    pub base: Base,
    pub path: Vec<S>,
    pub meta: Option<TermId>,
}
#[derive(Clone, Debug)]
pub enum V {
    Undef,
    Int(TermId),
    Agg(Rc<Agg>),
    Ptr(Rc<P>),
    Fn(usize),
    Opaque,
    /// 2^c + off, not yet partitioned on c
    Pow(TermId, Z),
}
/// what a struct with one sized field holds
fn inner(v: &V) -> V {
    let mut v = v.clone();
    while let V::Agg(a) = &v {
        let Some(x) = a.f.first().cloned() else { break };
        v = x;
    }
    v
}
#[derive(Clone)]
pub struct Frame {
    pub f: usize,
    pub bb: usize,
    pub si: usize,
    pub l: Vec<V>,
}
pub struct Log {
    c: Cond,
    v: bool,
    f: usize,
    line: u32,
    file: Rc<str>,
    prev: Option<Rc<Log>>,
}
impl Drop for Log {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(n) = p {
            match Rc::try_unwrap(n) {
                Ok(mut x) => p = x.prev.take(),
                Err(_) => break,
            }
        }
    }
}
pub struct SubLog {
    a: TermId,
    t: TermId,
    prev: Option<Rc<SubLog>>,
}
#[derive(Clone)]
pub struct State {
    pub fr: Vec<Rc<Frame>>,
    pub facts: Facts,
    pub log: Option<Rc<Log>>,
    pub sub: Option<Rc<SubLog>>,
    pub steps: u64,
    pub stuck: u32,
    pub late: u32,
    pub fixed: Rc<Vec<(String, Z)>>,
    pub named: u32,
    pub joined: bool,
    /// non-atomic terms eliminated by naming: key = value
    pub rw: Rc<Vec<(TermId, TermId)>>,
    pub roots: Rc<Vec<u32>>,
}

pub enum E {
    Split(Cond),
    SplitVal(TermId),
    Late(TermId),
    SplitBits(TermId),
    SplitTz(TermId, u32),
    Unsup(String),
    Panic(String),
    Dead,
    Done,
    Park,
}
type R<T> = Result<T, E>;
fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(E::Unsup(s.into()))
}

#[derive(Default, Clone)]
pub struct Stat {
    pub discharged: u64,
    pub violated: u64,
    pub undecided: u64,
}
#[derive(Clone)]
pub struct Report {
    pub check: String,
    pub what: String,
    pub file: String,
    pub func: String,
    pub line: u32,
    pub inputs: Vec<(String, Z)>,
    pub trail: Vec<String>,
    pub facts: Vec<String>,
}
#[derive(Default)]
pub struct Results {
    pub stats: BTreeMap<String, Stat>,
    pub reports: Vec<Report>,
    pub undecided: Vec<Report>,
    pub paths: u64,
    pub joins: u64,
    pub steps: u64,
    pub unsup: BTreeMap<String, u64>,
    pub fns: BTreeSet<usize>,
    pub incomplete: Option<String>,
    pub secs: f64,
}
pub struct Budget {
    pub paths: u64,
    pub secs: f64,
    pub split: u64,
    pub verbose: bool,
    pub trace: bool,
    /// outermost partition: these inputs are fixed
    pub pre: Vec<(String, i128)>,
}
pub struct Interp<'a> {
    pub ir: &'a Ir,
    pub ar: Arena,
    pub bud: Budget,
    pub res: Results,
    gc: HashMap<usize, V>,
    wit_secs: f64,
    rng: u64,
    nofn: HashMap<TermId, ()>,
    /// contracts: calls of the first function are analysed as the second
    stubs: HashMap<usize, usize>,
    /// entry locals visible to contracts
    shared: HashMap<String, V>,
}

fn last_name(n: &str) -> &str {
    // the last path segment outside generic arguments
    let b = n.as_bytes();
    let (mut depth, mut start, mut end) = (0i32, 0usize, n.len());
    let mut i = 0;
    while i < n.len() {
        match b[i] {
            b'<' => {
                if depth == 0 && i >= 2 && &n[i - 2..i] == "::" {
                    end = i - 2;
                }
                depth += 1;
            }
            b'>' if i > 0 && b[i - 1] == b'-' => {}
            b'>' => depth -= 1,
            b':' if depth == 0 && b.get(i + 1) == Some(&b':') && b.get(i + 2) != Some(&b'<') => {
                start = i + 2;
                end = n.len();
            }
            _ => {}
        }
        i += 1;
    }
    &n[start..end]
}

impl<'a> Interp<'a> {
    pub fn new(ir: &'a Ir, bud: Budget) -> Self {
        Interp { ir, ar: Arena::new(), bud, res: Results::default(), gc: HashMap::new(), wit_secs: 0.0, rng: 0x9E3779B97F4A7C15, nofn: HashMap::new(), stubs: HashMap::new(), shared: HashMap::new() }
    }

    // ---------- types ----------
    fn int_ty(&self, t: usize) -> Option<(u32, bool)> {
        match &self.ir.types[t].k {
            TyK::Bool => Some((1, false)),
            TyK::Char => Some((32, false)),
            TyK::Int { bits, signed } => Some((*bits, *signed)),
            TyK::Pat(e) => self.int_ty(*e),
            TyK::Adt { fieldless: true, .. } => Some(((self.ir.types[t].size.unwrap_or(0) * 8) as u32, false)),
            _ => None,
        }
    }
    fn is_zst(&self, t: usize) -> bool {
        self.ir.types[t].size == Some(0)
    }
    fn is_union(&self, t: usize) -> bool {
        matches!(&self.ir.types[t].k, TyK::Adt { kind: AdtKind::Union, .. })
    }
    fn place_ty(&self, f: usize, p: &Place) -> usize {
        let mut t = self.ir.fns[f].locals[p.local];
        for e in &p.proj {
            t = match e {
                Proj::Deref => match &self.ir.types[t].k {
                    TyK::Ptr { e, .. } => *e,
                    _ => t,
                },
                Proj::Field(_, ty) => *ty,
                Proj::Index(_) | Proj::CIdx(..) => match &self.ir.types[t].k {
                    TyK::Array(e, _) | TyK::Slice(e) => *e,
                    _ => t,
                },
                _ => t,
            };
        }
        t
    }
    fn op_ty(&self, f: usize, o: &Op) -> Option<usize> {
        match o {
            Op::Use(p) => Some(self.place_ty(f, p)),
            Op::K(_, t) => Some(*t),
            Op::RtCheck(_) => None,
        }
    }

    // ---------- scalar helpers ----------
    fn k(&mut self, v: i128) -> V {
        V::Int(self.ar.ki(v))
    }
    fn cval(&self, st: &State, t: TermId) -> Option<Z> {
        if let Some(z) = self.ar.as_const(t) {
            return Some(z);
        }
        let (a, b) = self.ar.range(&st.facts, t);
        if a == b {
            Some(a)
        } else {
            None
        }
    }
    fn need(&self, st: &State, t: TermId) -> R<Z> {
        self.cval(st, t).ok_or(E::SplitVal(t))
    }
    fn cond(&mut self, st: &State, c: Cond) -> R<bool> {
        self.ar.decide(&st.facts, c).ok_or(E::Split(c))
    }
    fn lt(&mut self, st: &State, a: TermId, b: TermId) -> R<bool> {
        // a < b  <=> b - a - 1 >= 0
        let d = self.ar.lin(Z::i(-1), vec![(Z::one(), b), (Z::i(-1), a)]);
        self.cond(st, Cond::Ge0(d))
    }
    fn eq(&mut self, st: &State, a: TermId, b: TermId) -> R<bool> {
        if a == b {
            return Ok(true);
        }
        let d = self.ar.sub(a, b);
        self.cond(st, Cond::Eq0(d))
    }
    /// a == c as a 0/1 term; two-valued operands are not partitioned on
    fn eq_term(&mut self, st: &State, a: TermId, c: TermId, bools: bool) -> R<TermId> {
        for (x, y) in [(a, c), (c, a)] {
            if let (None, Some(k)) = (self.cval(st, x), self.cval(st, y)) {
                let (l, h) = self.ar.range(&st.facts, x);
                if h - l == Z::one() && self.ar.as_lin(x).1.len() == 1 {
                    if k == h {
                        return Ok(self.ar.addc(x, -l));
                    }
                    if k == l {
                        return Ok(self.ar.lin(h, vec![(Z::i(-1), x)]));
                    }
                }
            }
        }
        if bools && self.cval(st, a).is_none() && self.cval(st, c).is_none() {
            let x = self.ar.xor1(a, c);
            return Ok(self.ar.lin(Z::one(), vec![(Z::i(-1), x)]));
        }
        let r = self.eq(st, a, c)?;
        Ok(self.ar.ki(r as i128))
    }
    fn lims(bits: u32, signed: bool) -> (Z, Z) {
        if signed {
            (-Z::pow2(bits - 1), Z::mask(bits - 1))
        } else {
            (Z::ZERO, Z::mask(bits))
        }
    }
    /// the value reduced to the machine type (two's complement)
    fn wrap(&mut self, st: &State, t: TermId, bits: u32, signed: bool) -> R<TermId> {
        let (l, h) = Self::lims(bits, signed);
        let (a, b) = self.ar.range(&st.facts, t);
        if a >= l && b <= h {
            return Ok(t);
        }
        if signed {
            let (wa, wb) = ((a - l).shr(bits), (b - l).shr(bits));
            if wa == wb {
                return Ok(self.ar.addc(t, -wa.shl(bits)));
            }
            if wb - wa == Z::one() {
                let d = self.ar.addc(t, -(wb.shl(bits) + l));
                return Err(E::Split(Cond::Ge0(d)));
            }
            let s = self.ar.addc(t, -l);
            let m = self.ar.mod2(&st.facts, s, bits);
            return Ok(self.ar.addc(m, l));
        }
        let (wa, wb) = (a.shr(bits), b.shr(bits));
        if wa == wb {
            return Ok(self.ar.addc(t, -wa.shl(bits)));
        }
        if wb - wa == Z::one() && matches!(self.ar.terms[t as usize], T::Lin(..)) {
            // structural reduction first
            let m = self.ar.mod2(&st.facts, t, bits);
            if !matches!(self.ar.terms[m as usize], T::Slice(..)) {
                return Ok(m);
            }
            let d = self.ar.addc(t, -wb.shl(bits));
            return Err(E::Split(Cond::Ge0(d)));
        }
        Ok(self.ar.mod2(&st.facts, t, bits))
    }
    fn int(&self, v: &V) -> R<TermId> {
        match v {
            V::Int(t) => Ok(*t),
            V::Pow(c, _) => Err(E::SplitVal(*c)),
            V::Undef => unsup("use of uninitialised integer"),
            V::Ptr(_) => unsup("pointer as integer"),
            V::Agg(a) if a.f.len() == 1 => self.int(&a.f[0]),
            V::Agg(_) => unsup("aggregate as integer"),
            _ => unsup("opaque integer"),
        }
    }

    // ---------- constants ----------
    fn cv(&mut self, c: &CV, ty: usize) -> V {
        match c {
            CV::Int(z) => {
                let t = self.ar.konst(*z);
                match &self.ir.types[ty].k {
                    TyK::Ptr { .. } => V::Ptr(Rc::new(P { base: Base::Addr(t), path: vec![], meta: None })),
                    _ => V::Int(t),
                }
            }
            CV::Agg(v, fs) => {
                let ir = self.ir;
                match &ir.types[ty].k {
                    TyK::Adt { fieldless: true, vs, .. } => {
                        let t = self.ar.konst(vs[*v as usize].discr);
                        V::Int(t)
                    }
                    TyK::Adt { vs, .. } => {
                        let f = fs.iter().enumerate().map(|(i, c)| self.cv(c, vs[*v as usize].fields[i])).collect();
                        V::Agg(Rc::new(Agg { var: *v, f }))
                    }
                    TyK::Tuple(ts) | TyK::Closure(ts) => {
                        let f = fs.iter().enumerate().map(|(i, c)| self.cv(c, ts[i])).collect();
                        V::Agg(Rc::new(Agg { var: 0, f }))
                    }
                    TyK::Array(e, _) | TyK::Slice(e) => {
                        let f = fs.iter().map(|c| self.cv(c, *e)).collect();
                        V::Agg(Rc::new(Agg { var: 0, f }))
                    }
                    TyK::Str => {
                        let f = fs
                            .iter()
                            .map(|c| match c {
                                CV::Int(z) => V::Int(self.ar.konst(*z)),
                                _ => V::Opaque,
                            })
                            .collect();
                        V::Agg(Rc::new(Agg { var: 0, f }))
                    }
                    _ => V::Opaque,
                }
            }
            CV::Ptr(g, len) => {
                let e = match &self.ir.types[ty].k {
                    TyK::Ptr { e, .. } => *e,
                    _ => ty,
                };
                let uns = matches!(self.ir.types[e].k, TyK::Slice(_) | TyK::Str);
                let meta = len.map(|l| self.ar.ki(l as i128));
                V::Ptr(Rc::new(P { base: Base::Global(*g as u32), path: if uns { vec![S::I(0)] } else { vec![] }, meta }))
            }
            CV::Fn(f) => V::Fn(*f),
            CV::Union(vs) => {
                let ir = self.ir;
                if let TyK::Adt { vs: vv, .. } = &ir.types[ty].k {
                    for (i, c) in vs.iter().enumerate() {
                        if !self.is_zst(vv[0].fields[i]) {
                            let v = self.cv(c, vv[0].fields[i]);
                            if !matches!(v, V::Undef | V::Opaque) {
                                return v;
                            }
                        }
                    }
                }
                V::Undef
            }
            CV::Zst => match &self.ir.types[ty].k {
                TyK::FnDef(Some(f)) => V::Fn(*f),
                _ => V::Agg(Rc::new(Agg { var: 0, f: vec![] })),
            },
            CV::Undef => V::Undef,
            CV::Opaque => V::Opaque,
        }
    }
    fn global(&mut self, g: usize) -> R<V> {
        if let Some(v) = self.gc.get(&g) {
            return Ok(v.clone());
        }
        let ir = self.ir;
        let gl = &ir.globals[g];
        if gl.mutable {
            return unsup("access to a mutable global");
        }
        let v = self.cv(&gl.v, gl.ty);
        self.gc.insert(g, v.clone());
        Ok(v)
    }

    fn show_v(&self, v: &V) -> String {
        match v {
            V::Undef => "undef".into(),
            V::Int(t) => self.ar.show(*t).chars().take(200).collect(),
            V::Agg(a) => format!("#{}[{}]", a.var, a.f.iter().map(|x| self.show_v(x)).collect::<Vec<_>>().join(", ")),
            V::Ptr(p) => format!("&{:?}{:?}{}", p.base, p.path, p.meta.map(|m| format!("|{}", self.ar.show(m))).unwrap_or_default()),
            V::Fn(f) => format!("fn {}", self.ir.fns[*f].name),
            V::Opaque => "opaque".into(),
            V::Pow(c, o) => format!("2^({})+{}", self.ar.show(*c), o),
        }
    }

    // ---------- memory ----------
    fn root(&mut self, st: &State, b: &Base) -> R<V> {
        match b {
            Base::Local(d, l) => match st.fr.get(*d as usize) {
                Some(f) => Ok(f.l[*l as usize].clone()),
                None => unsup("dangling frame pointer"),
            },
            Base::Global(g) => self.global(*g as usize),
            Base::Addr(_) => unsup("read through integer address"),
        }
    }
    fn read(&mut self, st: &State, b: &Base, path: &[S]) -> R<V> {
        if path.is_empty() {
            return match b {
                Base::Local(d, l) => match st.fr.get(*d as usize) {
                    Some(f) => Ok(f.l[*l as usize].clone()),
                    None => unsup("dangling frame pointer"),
                },
                _ => self.root(st, b),
            };
        }
        let mut v = self.root(st, b)?;
        for s in path {
            v = match (s, &v) {
                (_, V::Undef) => return Ok(V::Undef),
                (_, V::Opaque) => return Ok(V::Opaque),
                (S::F(i), V::Agg(a)) => a.f.get(*i as usize).cloned().unwrap_or(V::Undef),
                (S::D(n), V::Agg(a)) => {
                    if a.var != *n {
                        return unsup("wrong variant");
                    }
                    v
                }
                (S::D(_), _) => v,
                (S::I(i), V::Agg(a)) => {
                    if *i < 0 || *i as usize >= a.f.len() {
                        return unsup("out-of-bounds element read");
                    }
                    a.f[*i as usize].clone()
                }
                (S::F(_), _) => return unsup("field of a scalar"),
                (S::I(0), _) => v,
                _ => return unsup("bad path"),
            };
        }
        Ok(v)
    }
    fn write_in(v: &mut V, path: &[S], val: V) -> R<()> {
        let Some(s) = path.first() else {
            *v = val;
            return Ok(());
        };
        if !matches!(v, V::Agg(_)) {
            match (s, &*v) {
                (S::D(_), V::Int(_)) => return Self::write_in(v, &path[1..], val),
                (S::Off(_), _) => return unsup("write past an object"),
                (S::I(0), V::Int(_) | V::Ptr(_)) => return Self::write_in(v, &path[1..], val),
                _ => {}
            }
            *v = V::Agg(Rc::new(Agg { var: 0, f: vec![] }));
        }
        let V::Agg(a) = v else { unreachable!() };
        let a = Rc::make_mut(a);
        match s {
            S::D(n) => {
                if a.var != *n {
                    a.var = *n;
                    a.f.clear();
                }
                Self::write_in(v, &path[1..], val)
            }
            S::F(i) => {
                let i = *i as usize;
                while a.f.len() <= i {
                    a.f.push(V::Undef);
                }
                Self::write_in(&mut a.f[i], &path[1..], val)
            }
            S::I(i) => {
                if *i < 0 || *i > 1 << 16 {
                    return unsup("bad element write");
                }
                let i = *i as usize;
                while a.f.len() <= i {
                    a.f.push(V::Undef);
                }
                Self::write_in(&mut a.f[i], &path[1..], val)
            }
            S::Off(_) => unsup("write past an object"),
        }
    }
    fn write(&mut self, st: &mut State, b: &Base, path: &[S], val: V) -> R<()> {
        match b {
            Base::Local(d, l) => match st.fr.get_mut(*d as usize) {
                Some(f) => Self::write_in(&mut Rc::make_mut(f).l[*l as usize], path, val),
                None => unsup("dangling frame pointer"),
            },
            _ => unsup("write to a global"),
        }
    }
    fn heap(&mut self, st: &mut State, f: Vec<V>) -> V {
        let fr = Rc::make_mut(&mut st.fr[0]);
        fr.l.push(V::Agg(Rc::new(Agg { var: 0, f })));
        V::Ptr(Rc::new(P { base: Base::Local(0, fr.l.len() as u32 - 1), path: vec![S::I(0)], meta: None }))
    }
    fn ptr_off(p: &P, n: i64) -> P {
        let mut q = p.clone();
        match q.path.last_mut() {
            Some(S::I(k)) => *k += n,
            Some(S::Off(k)) => {
                *k += n;
                if *k == 0 {
                    q.path.pop();
                }
            }
            _ => {
                if n != 0 {
                    q.path.push(S::Off(n));
                }
            }
        }
        q
    }
    fn ptr_split(p: &P) -> (&Base, &[S], i64, bool) {
        match p.path.last() {
            Some(S::I(k)) => (&p.base, &p.path[..p.path.len() - 1], *k, true),
            Some(S::Off(k)) => (&p.base, &p.path[..p.path.len() - 1], *k, false),
            _ => (&p.base, &p.path[..], 0, false),
        }
    }
    fn ptr_diff(a: &P, b: &P) -> Option<i64> {
        let (x, y) = (Self::ptr_split(a), Self::ptr_split(b));
        if x.0 == y.0 && x.1 == y.1 && x.3 == y.3 {
            Some(x.2 - y.2)
        } else {
            None
        }
    }
    fn depth(st: &State) -> u32 {
        st.fr.len() as u32 - 1
    }
    /// (base, path, meta, type)
    fn resolve(&mut self, st: &State, p: &Place) -> R<(Base, Vec<S>, Option<TermId>, usize)> {
        let fr = st.fr.last().unwrap();
        let ir = self.ir;
        let mut t = ir.fns[fr.f].locals[p.local];
        let mut base = Base::Local(Self::depth(st), p.local as u32);
        let mut path: Vec<S> = vec![];
        let mut meta: Option<TermId> = None;
        for e in &p.proj {
            match e {
                Proj::Deref => {
                    let v = self.read(st, &base, &path)?;
                    let e = match &ir.types[t].k {
                        TyK::Ptr { e, .. } => *e,
                        _ => return unsup("deref of a box"),
                    };
                    t = e;
                    match v {
                        V::Ptr(q) => {
                            base = q.base.clone();
                            path = q.path.clone();
                            meta = q.meta;
                        }
                        V::Int(x) => {
                            base = Base::Addr(x);
                            path = vec![];
                            meta = None;
                        }
                        V::Undef => return unsup("deref of undef"),
                        _ => return unsup("deref of opaque"),
                    }
                }
                Proj::Field(i, ty) => {
                    if !self.is_union(t) {
                        path.push(S::F(*i));
                    }
                    t = *ty;
                    if matches!(ir.types[t].k, TyK::Slice(_) | TyK::Str) {
                        path.push(S::I(0)); // unsized tail of a struct
                    }
                }
                Proj::Down(v) => path.push(S::D(*v)),
                Proj::Index(l) => {
                    let iv = fr.l[*l].clone();
                    let it = self.int(&iv)?;
                    let i = self.need(st, it)?.to_i64();
                    match &ir.types[t].k {
                        TyK::Array(e, _) => {
                            path.push(S::I(i));
                            t = *e;
                        }
                        TyK::Slice(e) => {
                            let q = Self::ptr_off(&P { base: base.clone(), path, meta: None }, i);
                            path = q.path;
                            meta = None;
                            t = *e;
                        }
                        _ => return unsup("index of non-array"),
                    }
                }
                Proj::CIdx(off, _, end) => match &ir.types[t].k {
                    TyK::Array(e, n) => {
                        let i = if *end { n - off } else { *off };
                        path.push(S::I(i as i64));
                        t = *e;
                    }
                    TyK::Slice(e) => {
                        let i = if *end {
                            let Some(m) = meta else { return unsup("slice without length") };
                            self.need(st, m)?.to_i64() - *off as i64
                        } else {
                            *off as i64
                        };
                        let q = Self::ptr_off(&P { base: base.clone(), path, meta: None }, i);
                        path = q.path;
                        meta = None;
                        t = *e;
                    }
                    _ => return unsup("cindex of non-array"),
                },
                Proj::Sub(from, to, end) => match &ir.types[t].k {
                    TyK::Slice(_) => {
                        let Some(m) = meta else { return unsup("slice without length") };
                        let n = self.need(st, m)?.to_i64();
                        let to = if *end { n - *to as i64 } else { *to as i64 };
                        let q = Self::ptr_off(&P { base: base.clone(), path, meta: None }, *from as i64);
                        path = q.path;
                        meta = Some(self.ar.ki((to - *from as i64) as i128));
                    }
                    _ => return unsup("subarray"),
                },
                Proj::Other => return unsup("projection"),
            }
        }
        Ok((base, path, meta, t))
    }
    fn op(&mut self, st: &State, o: &Op) -> R<V> {
        match o {
            Op::Use(p) => {
                let v = if p.proj.is_empty() {
                    st.fr.last().unwrap().l[p.local].clone()
                } else {
                    let (b, path, _, _) = self.resolve(st, p)?;
                    self.read(st, &b, &path)?
                };
                if let V::Pow(c, o) = v {
                    if let Some(z) = self.cval(st, c) {
                        return Ok(V::Int(self.ar.konst(Z::pow2(z.to_i64() as u32) + o)));
                    }
                }
                Ok(v)
            }
            Op::K(c, t) => Ok(self.cv(c, *t)),
            Op::RtCheck(s) => Ok(self.k(if s.contains("Overflow") { 1 } else { 0 })),
        }
    }
    fn opi(&mut self, st: &State, o: &Op) -> R<TermId> {
        let v = self.op(st, o)?;
        self.int(&v)
    }
    fn assign(&mut self, st: &mut State, p: &Place, v: V) -> R<()> {
        if p.proj.is_empty() {
            Rc::make_mut(st.fr.last_mut().unwrap()).l[p.local] = v;
            return Ok(());
        }
        let (b, path, _, _) = self.resolve(st, p)?;
        self.write(st, &b, &path, v)
    }

    // ---------- operators ----------
    fn ptr_of(v: &V) -> Option<Rc<P>> {
        match v {
            V::Ptr(p) => Some(p.clone()),
            _ => None,
        }
    }
    fn bit(&mut self, st: &State, r: Result<TermId, TermId>) -> R<TermId> {
        let _ = st;
        r.map_err(E::SplitVal)
    }
    fn binop(&mut self, st: &State, b: B, x: V, y: V, ty: usize, ty2: usize) -> R<V> {
        if matches!(x, V::Ptr(_)) || matches!(y, V::Ptr(_)) {
            return self.ptr_bin(st, b, x, y);
        }
        if self.is_zst(ty) && matches!(b, B::Eq) {
            return Ok(self.k(1));
        }
        match (&x, &y) {
            (V::Pow(..), V::Int(t)) | (V::Int(t), V::Pow(..)) if b == B::And && self.cval(st, *t) == Some(Z::ZERO) => return Ok(self.k(0)),
            (V::Pow(e, o), V::Int(t)) if matches!(b, B::Sub | B::SubU) => {
                if let Some(z) = self.cval(st, *t) {
                    if !z.is_neg() && Z::pow2(self.ar.range(&st.facts, *e).0.to_i64() as u32) + *o >= z {
                        return Ok(V::Pow(*e, *o - z));
                    }
                }
            }
            _ => {}
        }
        let (a, c) = (self.int(&x)?, self.int(&y)?);
        let Some((bits, signed)) = self.int_ty(ty) else { return unsup("binop type") };
        let r = match b {
            B::Add | B::AddU => {
                let t = self.ar.add(a, c);
                self.wrap(st, t, bits, signed)?
            }
            B::Sub | B::SubU => {
                let t = self.ar.sub(a, c);
                self.wrap(st, t, bits, signed)?
            }
            B::Mul | B::MulU => {
                let t = self.mul(st, a, c)?;
                self.wrap(st, t, bits, signed)?
            }
            B::Div | B::Rem => {
                let (mut p, mut q) = (a, c);
                let (mut np, mut nq) = (false, false);
                if signed {
                    np = !self.cond(st, Cond::Ge0(a))?;
                    nq = !self.cond(st, Cond::Ge0(c))?;
                    if np {
                        p = self.ar.scale(a, Z::i(-1));
                    }
                    if nq {
                        q = self.ar.scale(c, Z::i(-1));
                    }
                }
                if self.ar.range(&st.facts, q).0 <= Z::ZERO {
                    let z = self.ar.ki(0);
                    if self.eq(st, q, z)? {
                        return unsup("division by zero");
                    }
                }
                let r = if b == B::Div { self.ar.div(&st.facts, p, q) } else { self.ar.rem(&st.facts, p, q) };
                if let Some(t) = self.ar.want_div(&st.facts, q, r) {
                    return Err(E::SplitVal(t));
                }
                let neg = if b == B::Div { np != nq } else { np };
                if neg {
                    self.ar.scale(r, Z::i(-1))
                } else {
                    r
                }
            }
            B::And | B::Or | B::Xor => {
                if bits == 1 && !signed && matches!(self.ir.types[ty].k, TyK::Bool) {
                    // short cuts, then make both definite
                    let (ca, cc) = (self.cval(st, a), self.cval(st, c));
                    match (b, ca, cc) {
                        (B::And, Some(z), _) | (B::And, _, Some(z)) if z.is_zero() => return Ok(self.k(0)),
                        (B::Or, Some(z), _) | (B::Or, _, Some(z)) if z.is_one() => return Ok(self.k(1)),
                        (B::And, Some(z), _) if z.is_one() => return Ok(V::Int(c)),
                        (B::And, _, Some(z)) if z.is_one() => return Ok(V::Int(a)),
                        (B::Or | B::Xor, Some(z), _) if z.is_zero() => return Ok(V::Int(c)),
                        (B::Or | B::Xor, _, Some(z)) if z.is_zero() => return Ok(V::Int(a)),
                        (B::Xor, Some(z), _) if z.is_one() => return Ok(V::Int(self.ar.lin(Z::one(), vec![(Z::i(-1), c)]))),
                        (B::Xor, _, Some(z)) if z.is_one() => return Ok(V::Int(self.ar.lin(Z::one(), vec![(Z::i(-1), a)]))),
                        (B::Xor, None, None) => return Ok(V::Int(self.ar.xor1(a, c))),
                        _ => {}
                    }
                    let x = !self.need(st, a)?.is_zero();
                    let y = !self.need(st, c)?.is_zero();
                    let r = match b {
                        B::And => x && y,
                        B::Or => x || y,
                        _ => x != y,
                    };
                    return Ok(self.k(r as i128));
                }
                let (a, c) = (self.narrow(st, a), self.narrow(st, c));
                let r = match b {
                    B::And => self.ar.and(&st.facts, a, c),
                    B::Or => self.ar.or(&st.facts, a, c),
                    _ => self.ar.xor(&st.facts, a, c),
                };
                self.bit(st, r)?
            }
            B::Shl | B::ShlU | B::Shr | B::ShrU => {
                let _ = ty2;
                let left = matches!(b, B::Shl | B::ShlU);
                let (slo, shi) = self.ar.range(&st.facts, c);
                if !left && !signed && !slo.is_neg() && shi < Z::i(bits as i128) {
                    let (_, h) = self.ar.range(&st.facts, a);
                    if slo >= Z::i(h.bitlen() as i128) {
                        return Ok(self.k(0));
                    }
                    let hb = Z::i(h.bitlen() as i128);
                    if self.cval(st, c).is_none() && shi >= hb {
                        let d = self.ar.addc(c, -hb);
                        return Err(E::Split(Cond::Ge0(d)));
                    }
                }
                if left && self.cval(st, a) == Some(Z::ZERO) {
                    return Ok(self.k(0));
                }
                if left && !signed && self.cval(st, a) == Some(Z::one()) && self.cval(st, c).is_none() && !slo.is_neg() && shi < Z::i(bits as i128) {
                    return Ok(V::Pow(c, Z::ZERO));
                }
                let s = self.need(st, c)?;
                let s = s.modp2(32).to_i64() as u32 % bits;
                if left {
                    let t = self.ar.scale(a, Z::pow2(s));
                    if signed {
                        self.wrap(st, t, bits, true)?
                    } else {
                        self.ar.mod2(&st.facts, t, bits)
                    }
                } else {
                    self.ar.div2(&st.facts, a, s)
                }
            }
            B::Eq | B::Ne => {
                let e = self.eq_term(st, a, c, bits == 1)?;
                return Ok(V::Int(if b == B::Eq { e } else { self.ar.lin(Z::one(), vec![(Z::i(-1), e)]) }));
            }
            B::Lt => return self.lt(st, a, c).map(|r| self.k(r as i128)),
            B::Ge => return self.lt(st, a, c).map(|r| self.k(!r as i128)),
            B::Gt => return self.lt(st, c, a).map(|r| self.k(r as i128)),
            B::Le => return self.lt(st, c, a).map(|r| self.k(!r as i128)),
            B::Cmp => {
                let r = if self.eq(st, a, c)? {
                    0
                } else if self.lt(st, a, c)? {
                    255
                } else {
                    1
                };
                return Ok(self.k(r));
            }
            B::Offset => return unsup("offset on integer"),
        };
        Ok(V::Int(r))
    }
    fn narrow(&mut self, st: &State, t: TermId) -> TermId {
        match self.cval(st, t) {
            Some(z) => self.ar.konst(z),
            None => t,
        }
    }
    fn mul(&mut self, st: &State, a: TermId, c: TermId) -> R<TermId> {
        let (a, c) = (self.narrow(st, a), self.narrow(st, c));
        let mut t = self.ar.mul(a, c);
        for (k, v) in st.rw.clone().iter() {
            let mut memo = HashMap::new();
            t = self.ar.subst(&st.facts, t, *k, *v, &mut memo);
        }
        Ok(t)
    }
    fn ptr_bin(&mut self, st: &State, b: B, x: V, y: V) -> R<V> {
        if b == B::Offset {
            let (V::Ptr(p), V::Int(n)) = (&x, &y) else { return unsup("offset") };
            let n = self.need(st, *n)?.to_i64();
            return Ok(V::Ptr(Rc::new(Self::ptr_off(p, n))));
        }
        if let (B::And, V::Ptr(p), V::Int(m)) = (b, &x, &y) {
            // the tag bit of fmt::Arguments: a pointer to argument records is even
            let (_, func, _) = self.at(st.fr.last().unwrap());
            if func.contains("fmt::Arguments") && self.ar.as_const(*m).is_some_and(|m| m.is_one()) && !matches!(p.base, Base::Addr(_)) {
                return Ok(self.k(0));
            }
        }
        let (p, q) = match (&x, &y) {
            (V::Ptr(p), V::Ptr(q)) => (p.clone(), q.clone()),
            (V::Ptr(p), V::Int(z)) => (p.clone(), Rc::new(P { base: Base::Addr(*z), path: vec![], meta: None })),
            (V::Int(z), V::Ptr(p)) => (Rc::new(P { base: Base::Addr(*z), path: vec![], meta: None }), p.clone()),
            _ => return unsup("pointer comparison"),
        };
        let d = Self::ptr_diff(&p, &q);
        if let (Base::Addr(s), Base::Addr(t)) = (&p.base, &q.base) {
            if p.path.is_empty() && q.path.is_empty() {
                let (s, t) = (self.ar.as_const(*s), self.ar.as_const(*t));
                if let (Some(s), Some(t)) = (s, t) {
                    let r = match b {
                        B::Eq => s == t,
                        B::Ne => s != t,
                        B::Lt => s < t,
                        B::Le => s <= t,
                        B::Gt => s > t,
                        B::Ge => s >= t,
                        _ => return unsup("pointer op"),
                    };
                    return Ok(self.k(r as i128));
                }
            }
        }
        let r = match (b, d) {
            (B::Eq, Some(d)) => d == 0,
            (B::Ne, Some(d)) => d != 0,
            (B::Eq, None) if p.base != q.base => false,
            (B::Ne, None) if p.base != q.base => true,
            (B::Lt, Some(d)) => d < 0,
            (B::Le, Some(d)) => d <= 0,
            (B::Gt, Some(d)) => d > 0,
            (B::Ge, Some(d)) => d >= 0,
            _ => return unsup("pointer comparison"),
        };
        Ok(self.k(r as i128))
    }

    /// single non-zero-sized field of a struct/union (index, type)
    fn single(&self, ty: usize) -> Option<(usize, usize, bool)> {
        match &self.ir.types[ty].k {
            TyK::Adt { kind: AdtKind::Struct, vs, .. } => {
                let nz: Vec<_> = vs[0].fields.iter().enumerate().filter(|x| !self.is_zst(*x.1)).collect();
                if nz.len() == 1 {
                    Some((nz[0].0, *nz[0].1, false))
                } else {
                    None
                }
            }
            TyK::Adt { kind: AdtKind::Union, vs, .. } => {
                let mx = vs[0].fields.iter().max_by_key(|t| self.ir.types[**t].size.unwrap_or(0))?;
                Some((0, *mx, true))
            }
            TyK::Pat(e) => Some((0, *e, true)),
            TyK::Tuple(ts) => {
                let nz: Vec<_> = ts.iter().enumerate().filter(|x| !self.is_zst(*x.1)).collect();
                if nz.len() == 1 {
                    Some((nz[0].0, *nz[0].1, false))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn peel(&self, mut ty: usize, mut v: V) -> (usize, V) {
        while let Some((i, t, un)) = self.single(ty) {
            if !un {
                v = match &v {
                    V::Agg(a) => a.f.get(i).cloned().unwrap_or(V::Undef),
                    V::Undef => V::Undef,
                    _ => v,
                };
            }
            ty = t;
        }
        (ty, v)
    }
    fn wrapv(&self, ty: usize, v: V) -> V {
        match self.single(ty) {
            None => v,
            Some((i, t, un)) => {
                let inner = self.wrapv(t, v);
                if un {
                    return inner;
                }
                let n = match &self.ir.types[ty].k {
                    TyK::Adt { vs, .. } => vs[0].fields.len(),
                    TyK::Tuple(ts) => ts.len(),
                    _ => i + 1,
                };
                let mut f = vec![V::Agg(Rc::new(Agg { var: 0, f: vec![] })); n];
                f[i] = inner;
                V::Agg(Rc::new(Agg { var: 0, f }))
            }
        }
    }
    fn ptr_retype(&mut self, p: &Rc<P>, e1: usize, e2: usize) -> V {
        let (k1, k2) = (&self.ir.types[e1].k, &self.ir.types[e2].k);
        let mut q = (**p).clone();
        let uns2 = self.ir.types[e2].size.is_none();
        if !uns2 {
            q.meta = None;
        }
        // *W<[T;N]> -> *T, *W<T> -> *T through single-field wrappers W
        let (mut t, mut pre) = (e1, vec![]);
        while t != e2 && uns2 == false {
            match (&self.ir.types[t].k, self.single(t)) {
                (TyK::Array(u, _), _) => {
                    if *u == e2 {
                        pre.push(S::I(0));
                        q.path.extend(pre);
                    }
                    break;
                }
                (_, Some((i, u, un))) => {
                    if !un {
                        pre.push(S::F(i as u32));
                    }
                    t = u;
                }
                _ => break,
            }
        }
        if let (TyK::Slice(t), TyK::Array(u, _)) = (k1, k2) {
            if t == u && q.path.last() == Some(&S::I(0)) {
                q.path.pop();
            }
        }
        V::Ptr(Rc::new(q))
    }
    fn transmute(&mut self, st: &State, v: V, t1: usize, t2: usize) -> R<V> {
        if t1 == t2 {
            return Ok(v);
        }
        let (p1, mut v1) = self.peel(t1, v);
        let (p2, _) = self.peel(t2, V::Undef);
        if matches!(self.ir.types[p1].k, TyK::Ptr { .. }) {
            // stored through a pointer cast to a single-field wrapper
            while let V::Agg(a) = &v1 {
                if a.f.len() != 1 {
                    break;
                }
                v1 = a.f[0].clone();
            }
        }
        let ir = self.ir;
        let r = match (&ir.types[p1].k, &ir.types[p2].k, &v1) {
            (_, _, V::Undef) => V::Undef,
            _ if p1 == p2 => v1,
            (TyK::FnPtr, TyK::FnPtr, V::Fn(_)) => v1,
            (TyK::Ptr { e: e1, .. }, TyK::Ptr { e: e2, .. }, V::Ptr(p)) => {
                let p = p.clone();
                self.ptr_retype(&p, *e1, *e2)
            }
            (TyK::Ptr { .. }, _, V::Ptr(p)) if self.int_ty(p2).is_some() => match &p.base {
                Base::Addr(t) if p.path.is_empty() => V::Int(*t),
                _ => v1,
            },
            (_, TyK::Ptr { .. }, V::Int(t)) => V::Ptr(Rc::new(P { base: Base::Addr(*t), path: vec![], meta: None })),
            (_, TyK::Ptr { .. }, V::Ptr(_)) => v1,
            (TyK::Array(e, n), _, V::Agg(a)) if self.int_ty(*e).is_some() && self.int_ty(p2).is_some() => {
                let (eb, _) = self.int_ty(*e).unwrap();
                let (b2, s2) = self.int_ty(p2).unwrap();
                let mut ts = vec![];
                for i in 0..*n as usize {
                    let t = self.int(&a.f[i])?;
                    ts.push((Z::pow2(eb * i as u32), t));
                }
                let t = self.ar.lin(Z::ZERO, ts);
                V::Int(self.wrap(st, t, b2, s2)?)
            }
            (_, TyK::Array(e, n), V::Int(t)) if self.int_ty(*e).is_some() => {
                let (eb, _) = self.int_ty(*e).unwrap();
                let mut f = vec![];
                for i in 0..*n as u32 {
                    f.push(V::Int(self.ar.extract(&st.facts, *t, eb * i, eb)));
                }
                V::Agg(Rc::new(Agg { var: 0, f }))
            }
            (TyK::Array(_, n), TyK::Array(_, m), V::Agg(_)) if n == m => v1,
            (_, _, V::Int(t)) if self.int_ty(p2).is_some() => {
                let (b, s) = self.int_ty(p2).unwrap();
                V::Int(self.wrap(st, *t, b, s)?)
            }
            // Option<ptr> <-> ptr
            (TyK::Ptr { .. }, TyK::Adt { kind: AdtKind::Enum, vs, .. }, V::Ptr(p)) if vs.len() == 2 => {
                let null = matches!(p.base, Base::Addr(t) if self.ar.as_const(t) == Some(Z::ZERO));
                let some = vs.iter().position(|v| v.fields.len() == 1).unwrap_or(1);
                if null {
                    V::Agg(Rc::new(Agg { var: 1 - some as u32, f: vec![] }))
                } else {
                    let inner = self.wrapv(vs[some].fields[0], v1.clone());
                    V::Agg(Rc::new(Agg { var: some as u32, f: vec![inner] }))
                }
            }
            (TyK::Adt { kind: AdtKind::Enum, vs, .. }, TyK::Ptr { .. }, V::Agg(a)) if vs.len() == 2 => {
                if a.f.is_empty() {
                    let z = self.ar.ki(0);
                    V::Ptr(Rc::new(P { base: Base::Addr(z), path: vec![], meta: None }))
                } else {
                    self.peel(vs[a.var as usize].fields[0], a.f[0].clone()).1
                }
            }
            // Option<NonZero> <-> integer
            (_, TyK::Adt { kind: AdtKind::Enum, vs, .. }, V::Int(t)) if vs.len() == 2 && vs[0].fields.len() + vs[1].fields.len() == 1 => {
                let some = vs.iter().position(|v| v.fields.len() == 1).unwrap();
                let t = *t;
                if self.cond(st, Cond::Eq0(t))? {
                    V::Agg(Rc::new(Agg { var: 1 - some as u32, f: vec![] }))
                } else {
                    let inner = self.wrapv(vs[some].fields[0], V::Int(t));
                    V::Agg(Rc::new(Agg { var: some as u32, f: vec![inner] }))
                }
            }
            (TyK::Adt { kind: AdtKind::Enum, vs, .. }, _, V::Agg(a)) if vs.len() == 2 && self.int_ty(p2).is_some() && vs[0].fields.len() + vs[1].fields.len() == 1 => {
                if a.f.is_empty() {
                    let f = vs.iter().find_map(|v| v.fields.first()).unwrap();
                    let niche = if matches!(self.int_ty(*f), Some((1, _))) { 2 } else { 0 };
                    V::Int(self.ar.ki(niche))
                } else {
                    self.peel(vs[a.var as usize].fields[0], a.f[0].clone()).1
                }
            }
            (TyK::Slice(_), _, _) | (_, TyK::Slice(_), _) => return unsup("transmute slice"),
            _ => {
                if self.bud.trace {
                    eprintln!("transmute of {}", self.show_v(&v1));
                }
                return unsup(format!("transmute {} -> {}", ir.types[t1].s, ir.types[t2].s));
            }
        };
        Ok(self.wrapv(t2, r))
    }
    fn unsize(&mut self, v: V, t1: usize, t2: usize) -> R<V> {
        match (&self.ir.types[t1].k, &self.ir.types[t2].k, v) {
            (TyK::Ptr { e: e1, .. }, TyK::Ptr { e: e2, .. }, V::Ptr(p)) => {
                let mut q = (*p).clone();
                match (&self.ir.types[*e1].k, &self.ir.types[*e2].k) {
                    (TyK::Array(_, n), TyK::Slice(_)) => {
                        q.path.push(S::I(0));
                        q.meta = Some(self.ar.ki(*n as i128));
                    }
                    (TyK::Adt { kind: AdtKind::Struct, vs, .. }, TyK::Adt { .. }) => {
                        // struct whose last field is an array: the length becomes the metadata
                        let mut t = vs[0].fields.last().cloned();
                        while let Some(x) = t {
                            match &self.ir.types[x].k {
                                TyK::Array(_, n) => {
                                    q.meta = Some(self.ar.ki(*n as i128));
                                    break;
                                }
                                TyK::Adt { kind: AdtKind::Struct, vs, .. } => t = vs[0].fields.last().cloned(),
                                _ => break,
                            }
                        }
                    }
                    _ => {}
                }
                Ok(V::Ptr(Rc::new(q)))
            }
            _ => Ok(V::Opaque),
        }
    }
    fn rvalue(&mut self, st: &State, r: &Rv, dty: usize) -> R<V> {
        let f = st.fr.last().unwrap().f;
        Ok(match r {
            Rv::Use(o) => self.op(st, o)?,
            Rv::Ref(p) => {
                let (base, path, meta, t) = self.resolve(st, p)?;
                let uns = self.ir.types[t].size.is_none();
                V::Ptr(Rc::new(P { base, path, meta: if uns { meta } else { None } }))
            }
            Rv::Bin(b, x, y) => {
                let (tx, ty) = (self.op_ty(f, x).unwrap_or(0), self.op_ty(f, y).unwrap_or(0));
                let (x, y) = (self.op(st, x)?, self.op(st, y)?);
                self.binop(st, *b, x, y, tx, ty)?
            }
            Rv::CBin(b, x, y) => {
                let tx = self.op_ty(f, x).unwrap();
                let (x, y) = (self.op(st, x)?, self.op(st, y)?);
                let (bits, signed) = self.int_ty(tx).unwrap();
                if matches!(x, V::Pow(..)) && *b == B::Sub {
                    let v = self.binop(st, *b, x, y, tx, tx)?;
                    let o = self.k(0);
                    if !matches!(v, V::Pow(..)) {
                        return unsup("power of two");
                    }
                    return Ok(V::Agg(Rc::new(Agg { var: 0, f: vec![v, o] })));
                }
                let (x, y) = (self.int(&x)?, self.int(&y)?);
                let (t, o) = self.checked(st, *b, x, y, bits, signed)?;
                let o = self.k(o as i128);
                V::Agg(Rc::new(Agg { var: 0, f: vec![V::Int(t), o] }))
            }
            Rv::Not(o) => {
                let t = self.op_ty(f, o).unwrap_or(0);
                let x = self.opi(st, o)?;
                match self.int_ty(t) {
                    Some((b, false)) => {
                        let m = Z::mask(b);
                        V::Int(self.ar.lin(m, vec![(Z::i(-1), x)]))
                    }
                    _ => V::Int(self.ar.lin(Z::i(-1), vec![(Z::i(-1), x)])),
                }
            }
            Rv::Neg(o) => {
                let t = self.op_ty(f, o).unwrap_or(0);
                let x = self.opi(st, o)?;
                let (b, s) = self.int_ty(t).ok_or(E::Unsup("neg".into()))?;
                let n = self.ar.scale(x, Z::i(-1));
                V::Int(self.wrap(st, n, b, s)?)
            }
            Rv::PtrMeta(o) => {
                let v = self.op(st, o)?;
                match v {
                    V::Ptr(p) => match p.meta {
                        Some(m) => V::Int(m),
                        None => V::Agg(Rc::new(Agg { var: 0, f: vec![] })),
                    },
                    _ => return unsup("metadata"),
                }
            }
            Rv::Cast(k, o, t2) => {
                let t1 = self.op_ty(f, o).unwrap_or(0);
                let v = self.op(st, o)?;
                self.cast(st, k, v, t1, *t2)?
            }
            Rv::Agg(var, ops, is_adt, active) => {
                if *is_adt {
                    let ir = self.ir;
                    if let TyK::Adt { fieldless: true, vs, .. } = &ir.types[dty].k {
                        return Ok(V::Int(self.ar.konst(vs[*var as usize].discr)));
                    }
                    if *active || self.is_union(dty) {
                        return self.op(st, &ops[0]);
                    }
                }
                let mut f = Vec::with_capacity(ops.len());
                for o in ops {
                    f.push(self.op(st, o)?);
                }
                V::Agg(Rc::new(Agg { var: *var, f }))
            }
            Rv::RawPtr(o, m) => {
                let (v, m) = (self.op(st, o)?, self.op(st, m)?);
                match v {
                    V::Ptr(p) => {
                        let mut q = (*p).clone();
                        q.meta = match m {
                            V::Int(t) => Some(t),
                            _ => None,
                        };
                        V::Ptr(Rc::new(q))
                    }
                    _ => return unsup("raw pointer aggregate"),
                }
            }
            Rv::Discr(p) => {
                let t = self.place_ty(f, p);
                let (b, path, _, _) = self.resolve(st, p)?;
                let v = self.read(st, &b, &path)?;
                self.discr(st, &v, t, dty)?
            }
            Rv::Len(p) => {
                let (_, _, meta, t) = self.resolve(st, p)?;
                match &self.ir.types[t].k {
                    TyK::Array(_, n) => self.k(*n as i128),
                    _ => match meta {
                        Some(m) => V::Int(m),
                        None => return unsup("len"),
                    },
                }
            }
            Rv::Repeat(o, n) => {
                let v = self.op(st, o)?;
                if *n > 4096 {
                    return unsup("large array");
                }
                V::Agg(Rc::new(Agg { var: 0, f: vec![v; *n as usize] }))
            }
            Rv::Unsup(s) => return unsup(s.clone()),
        })
    }
    fn discr(&mut self, st: &State, v: &V, t: usize, dty: usize) -> R<V> {
        let (bits, signed) = self.int_ty(dty).unwrap_or((64, true));
        let ir = self.ir;
        match (&ir.types[t].k, v) {
            (TyK::Adt { kind: AdtKind::Enum, vs, .. }, V::Agg(a)) => {
                let d = vs[a.var as usize].discr;
                let d = self.ar.konst(d);
                Ok(V::Int(self.wrap(st, d, bits, signed)?))
            }
            (TyK::Adt { kind: AdtKind::Enum, .. }, V::Int(x)) => Ok(V::Int(self.wrap(st, *x, bits, signed)?)),
            // a zero-sized enum has one inhabited variant and is never written
            (TyK::Adt { kind: AdtKind::Enum, vs, .. }, V::Undef) if ir.types[t].size == Some(0) => {
                let live: Vec<_> = vs.iter().filter(|v| !v.fields.iter().any(|f| matches!(ir.types[*f].k, TyK::Never))).collect();
                if live.len() != 1 {
                    return unsup("discriminant of undef");
                }
                let d = self.ar.konst(live[0].discr);
                Ok(V::Int(self.wrap(st, d, bits, signed)?))
            }
            (TyK::Adt { kind: AdtKind::Enum, .. }, V::Undef) => unsup("discriminant of undef"),
            (TyK::Adt { kind: AdtKind::Enum, .. }, _) => unsup("discriminant"),
            _ => Ok(self.k(0)),
        }
    }
    fn cast(&mut self, st: &State, k: &str, v: V, t1: usize, t2: usize) -> R<V> {
        match k {
            "IntToInt" => {
                let x = self.int(&v)?;
                let (b, s) = self.int_ty(t2).ok_or(E::Unsup("cast".into()))?;
                Ok(V::Int(self.wrap(st, x, b, s)?))
            }
            "PtrToPtr" => match (&self.ir.types[t1].k, &self.ir.types[t2].k, &v) {
                (TyK::Ptr { e: e1, .. }, TyK::Ptr { e: e2, .. }, V::Ptr(p)) => {
                    let (e1, e2, p) = (*e1, *e2, p.clone());
                    Ok(self.ptr_retype(&p, e1, e2))
                }
                _ => Ok(v),
            },
            "Transmute" | "Subtype" => self.transmute(st, v, t1, t2),
            _ if k.contains("Unsize") => self.unsize(v, t1, t2),
            _ if k.starts_with("PointerCoercion") => Ok(v),
            "PointerExposeAddress" | "PointerExposeProvenance" => match &v {
                V::Ptr(p) => match &p.base {
                    Base::Addr(t) => Ok(V::Int(*t)),
                    _ => Ok(v),
                },
                _ => Ok(v),
            },
            "PointerWithExposedProvenance" => match v {
                V::Int(t) => Ok(V::Ptr(Rc::new(P { base: Base::Addr(t), path: vec![], meta: None }))),
                _ => Ok(v),
            },
            _ => unsup(format!("cast {k}")),
        }
    }
    fn checked(&mut self, st: &State, b: B, x: TermId, y: TermId, bits: u32, signed: bool) -> R<(TermId, bool)> {
        let t = match b {
            B::Add => self.ar.add(x, y),
            B::Sub => self.ar.sub(x, y),
            B::Mul => self.mul(st, x, y)?,
            B::Shl | B::Shr => return unsup("checked shift"),
            _ => return unsup("checked op"),
        };
        let (l, h) = Self::lims(bits, signed);
        let up = self.ar.lin(h, vec![(Z::i(-1), t)]);
        let lo = self.ar.addc(t, -l);
        let o = !(self.cond(st, Cond::Ge0(up))? && self.cond(st, Cond::Ge0(lo))?);
        let w = if o { self.wrap(st, t, bits, signed)? } else { t };
        Ok((w, o))
    }

    // ---------- steps ----------
    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.res.steps += 1;
        let ir = self.ir;
        let (f, bb, si) = {
            let fr = st.fr.last().unwrap();
            (fr.f, fr.bb, fr.si)
        };
        let blk = &ir.fns[f].blocks[bb];
        if si < blk.s.len() {
            match &blk.s[si].0 {
                St::Assign(p, r) => {
                    let dty = self.place_ty(f, p);
                    let v = self.rvalue(st, r, dty)?;
                    self.assign(st, p, v)?;
                }
                St::SetDiscr(p, v) => {
                    let (b, path, _, t) = self.resolve(st, p)?;
                    if let TyK::Adt { fieldless: true, vs, .. } = &ir.types[t].k {
                        let x = V::Int(self.ar.konst(vs[*v as usize].discr));
                        self.write(st, &b, &path, x)?;
                    } else {
                        let cur = self.read(st, &b, &path)?;
                        let n = match cur {
                            V::Agg(a) => V::Agg(Rc::new(Agg { var: *v, f: a.f.clone() })),
                            _ => V::Agg(Rc::new(Agg { var: *v, f: vec![] })),
                        };
                        self.write(st, &b, &path, n)?;
                    }
                }
                St::Cno(a, b, n) => {
                    let (a, b, n) = (self.op(st, a)?, self.op(st, b)?, self.opi(st, n)?);
                    self.copy_n(st, a, b, n)?;
                }
            }
            Rc::make_mut(st.fr.last_mut().unwrap()).si += 1;
            return Ok(());
        }
        match &blk.t {
            Term::Goto(b) => self.goto(st, *b),
            Term::Switch(o, br, other) => {
                let ty = self.op_ty(f, o).unwrap_or(0);
                let t = self.opi(st, o)?;
                let (bits, signed) = self.int_ty(ty).unwrap_or((64, false));
                let norm = |z: Z| if signed && z > Z::mask(bits - 1) { z - Z::pow2(bits) } else { z };
                if let Some(z) = self.cval(st, t) {
                    for (v, b) in br {
                        if norm(*v) == z {
                            return self.goto(st, *b);
                        }
                    }
                    return self.goto(st, *other);
                }
                for (v, b) in br {
                    let d = self.ar.addc(t, -norm(*v));
                    match self.ar.decide(&st.facts, Cond::Eq0(d)) {
                        Some(true) => return self.goto(st, *b),
                        Some(false) => {}
                        None => return Err(E::Split(Cond::Eq0(d))),
                    }
                }
                self.goto(st, *other)
            }
            Term::Ret => {
                let v = st.fr.last().unwrap().l[0].clone();
                if st.fr.len() == 1 {
                    return Err(E::Done);
                }
                st.fr.pop();
                if self.bud.trace {
                    eprintln!("{:w$}< {} = {}", "", ir.fns[f].name, self.show_v(&v), w = st.fr.len());
                }
                let (cf, cb) = {
                    let c = st.fr.last().unwrap();
                    (c.f, c.bb)
                };
                if let Term::Drop(_, t, _) = &ir.fns[cf].blocks[cb].t {
                    return self.goto(st, *t);
                }
                let Term::Call(_, _, dest, target) = &ir.fns[cf].blocks[cb].t else { return unsup("return to a non-call") };
                self.assign(st, dest, v)?;
                match target {
                    Some(t) => self.goto(st, *t),
                    None => unsup("return from diverging call"),
                }
            }
            Term::Resume => Err(E::Dead),
            Term::Unreachable => Err(E::Panic("unreachable code reached".into())),
            Term::Drop(_, t, None) => self.goto(st, *t),
            Term::Drop(p, t, Some(g)) => {
                let cf = &ir.fns[*g];
                if cf.blocks.is_empty() {
                    return unsup(format!("drop glue without body: {}", cf.name));
                }
                if st.fr.len() > 1000 {
                    return Err(E::Panic("unbounded recursion".into()));
                }
                let _ = t;
                let r = self.rvalue(st, &Rv::Ref(p.clone()), 0)?;
                let mut l = vec![V::Undef; cf.locals.len()];
                if l.len() > 1 {
                    l[1] = r;
                }
                self.res.fns.insert(*g);
                if self.bud.trace {
                    eprintln!("{:w$}> {}({})", "", cf.name, self.show_v(&l[1]), w = st.fr.len());
                }
                st.fr.push(Rc::new(Frame { f: *g, bb: 0, si: 0, l }));
                Ok(())
            }
            Term::Assert(o, exp, msg, t) => {
                let c = self.opi(st, o)?;
                let v = !self.need(st, c)?.is_zero();
                if v == *exp {
                    self.goto(st, *t)
                } else {
                    Err(E::Panic(format!("assert {msg}")))
                }
            }
            Term::Call(c, args, dest, target) => {
                let mut av = Vec::with_capacity(args.len());
                let callee = match c {
                    Callee::Fn(k) => *k,
                    Callee::Ind(o) => match self.op(st, o)? {
                        V::Fn(k) => k,
                        _ => return unsup("indirect call"),
                    },
                    Callee::Unres(s) => return unsup(format!("unresolved {s}")),
                };
                for a in args {
                    av.push(self.op(st, a)?);
                }
                let callee = self.stubs.get(&callee).copied().unwrap_or(callee);
                if let Callee::Ind(_) = c {
                    // called at a type in which a reference is hidden behind a wrapper
                    for (i, a) in av.iter_mut().enumerate() {
                        let Some(&t) = ir.fns[callee].locals.get(i + 1) else { break };
                        if !matches!(ir.types[t].k, TyK::Ptr { .. }) {
                            continue;
                        }
                        while let V::Agg(x) = &*a {
                            if x.f.len() != 1 {
                                break;
                            }
                            *a = x.f[0].clone();
                        }
                    }
                }
                let cf = &ir.fns[callee];
                if cf.krate == "probe" && cf.name.starts_with("probe::rt::") {
                    let v = self.rt(st, &cf.name, &av, f)?;
                    self.assign(st, dest, v)?;
                    return match target {
                        Some(t) => self.goto(st, *t),
                        None => Err(E::Dead),
                    };
                }
                if cf.blocks.is_empty() {
                    let nm = cf.intrinsic.as_deref().unwrap_or(last_name(&cf.name)).to_string();
                    if is_panic(&cf.name) {
                        return Err(E::Panic(nm));
                    }
                    let dty = self.place_ty(f, dest);
                    let v = self.intrinsic(st, &nm, &av, callee, dty)?;
                    self.assign(st, dest, v)?;
                    return match target {
                        Some(t) => self.goto(st, *t),
                        None => Err(E::Dead),
                    };
                }
                if is_panic(&cf.name) {
                    return Err(E::Panic(last_name(&cf.name).to_string()));
                }
                if st.fr.len() > 1000 {
                    return Err(E::Panic("unbounded recursion".into()));
                }
                if cf.closure && cf.kind == "item" {
                    let last = av.pop();
                    match last {
                        Some(V::Agg(a)) => av.extend(a.f.iter().cloned()),
                        Some(v) => av.push(v),
                        None => {}
                    }
                }
                let mut l = vec![V::Undef; cf.locals.len()];
                for (i, v) in av.into_iter().enumerate() {
                    if i + 1 < l.len() {
                        l[i + 1] = v;
                    }
                }
                self.res.fns.insert(callee);
                if self.bud.trace {
                    let a: Vec<String> = l[1..].iter().take(5).map(|v| self.show_v(v)).collect();
                    eprintln!("{:w$}> {}({})", "", ir.fns[callee].name, a.join(", "), w = st.fr.len());
                }
                st.fr.push(Rc::new(Frame { f: callee, bb: 0, si: 0, l }));
                Ok(())
            }
            Term::Unsup(s) => unsup(s.clone()),
        }
    }
    fn goto(&mut self, st: &mut State, b: usize) -> R<()> {
        let fr = Rc::make_mut(st.fr.last_mut().unwrap());
        fr.bb = b;
        fr.si = 0;
        Ok(())
    }
    fn copy_n(&mut self, st: &mut State, a: V, b: V, n: TermId) -> R<()> {
        let n = self.need(st, n)?.to_i64();
        if n == 0 {
            return Ok(());
        }
        let (V::Ptr(a), V::Ptr(b)) = (a, b) else { return unsup("copy") };
        let mut vals = vec![];
        for i in 0..n {
            let p = Self::ptr_off(&a, i);
            vals.push(self.read(st, &p.base, &p.path)?);
        }
        for (i, v) in vals.into_iter().enumerate() {
            let p = Self::ptr_off(&b, i as i64);
            self.write(st, &p.base, &p.path, v)?;
        }
        Ok(())
    }
    fn read_str(&mut self, st: &State, v: &V) -> R<String> {
        let V::Ptr(p) = v else { return unsup("string") };
        let n = match p.meta {
            Some(m) => self.need(st, m)?.to_i64(),
            None => return unsup("string"),
        };
        let mut s = String::new();
        for i in 0..n {
            let q = Self::ptr_off(p, i);
            let v = self.read(st, &q.base, &q.path)?;
            let t = self.int(&v)?;
            s.push(self.need(st, t)?.to_i64() as u8 as char);
        }
        Ok(s)
    }
    fn vals_eq(&mut self, st: &State, a: &V, b: &V) -> R<bool> {
        match (a, b) {
            (V::Int(x), V::Int(y)) => self.eq(st, *x, *y),
            (V::Agg(x), V::Agg(y)) => {
                if x.var != y.var || x.f.len() != y.f.len() {
                    return Ok(false);
                }
                for i in 0..x.f.len() {
                    if !self.vals_eq(st, &x.f[i], &y.f[i])? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            _ => unsup("raw equality"),
        }
    }
    fn intrinsic(&mut self, st: &mut State, nm: &str, a: &[V], callee: usize, dty: usize) -> R<V> {
        let ir = self.ir;
        let g0 = ir.fns[callee].gargs.first().cloned();
        let unit = V::Agg(Rc::new(Agg { var: 0, f: vec![] }));
        Ok(match nm {
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "assume" | "__rust_no_alloc_shim_is_unstable_v2" => unit,
            "likely" | "unlikely" | "black_box" | "forget" => a[0].clone(),
            "size_of" | "min_align_of" | "align_of" => {
                let t = &ir.types[g0.unwrap()];
                self.k(if nm == "size_of" { t.size.unwrap_or(0) } else { t.align } as i128)
            }
            "integer_min" | "integer_max" => {
                let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                let less = self.lt(st, y, x)?;
                V::Int(if less == (nm == "integer_min") { y } else { x })
            }
            "saturating_add" | "saturating_sub" => {
                let (b, s) = self.int_ty(g0.unwrap()).unwrap();
                let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                let t = if nm == "saturating_add" { self.ar.add(x, y) } else { self.ar.sub(x, y) };
                let (l, h) = Self::lims(b, s);
                let (kl, kh) = (self.ar.konst(l), self.ar.konst(h));
                if self.lt(st, kh, t)? {
                    V::Int(kh)
                } else if self.lt(st, t, kl)? {
                    V::Int(kl)
                } else {
                    V::Int(t)
                }
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" => {
                let (b, s) = self.int_ty(g0.unwrap()).unwrap();
                let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                let t = if nm.ends_with("add") {
                    self.ar.add(x, y)
                } else if nm.ends_with("sub") {
                    self.ar.sub(x, y)
                } else {
                    self.mul(st, x, y)?
                };
                V::Int(self.wrap(st, t, b, s)?)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (b, s) = self.int_ty(g0.unwrap()).unwrap();
                let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                let op = match &nm[..3] {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    _ => B::Mul,
                };
                let (t, o) = self.checked(st, op, x, y, b, s)?;
                let o = self.k(o as i128);
                V::Agg(Rc::new(Agg { var: 0, f: vec![V::Int(t), o] }))
            }
            "is_val_statically_known" => self.k(0),
            "disjoint_bitor" => match self.int_ty(g0.unwrap()) {
                Some((b, s)) if b > 1 => {
                    let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                    let t = self.ar.add(x, y);
                    V::Int(self.wrap(st, t, b, s)?)
                }
                _ => {
                    let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                    let r = !self.cond(st, Cond::Eq0(x))? || !self.cond(st, Cond::Eq0(y))?;
                    self.k(r as i128)
                }
            },
            "rotate_left" | "rotate_right" => {
                let (b, s) = self.int_ty(g0.unwrap()).unwrap();
                let (x, n) = (self.int(&a[0])?, self.int(&a[1])?);
                let n = self.need(st, n)?.to_i64() as u32 % b;
                let n = if nm == "rotate_left" { n } else { (b - n) % b };
                let x = self.wrap(st, x, b, false)?;
                let hi = self.ar.extract(&st.facts, x, b - n, n);
                let lo = self.ar.extract(&st.facts, x, 0, b - n);
                let t = self.ar.lin(Z::ZERO, vec![(Z::one(), hi), (Z::pow2(n), lo)]);
                V::Int(self.wrap(st, t, b, s)?)
            }
            "bswap" | "bitreverse" => {
                let (b, s) = self.int_ty(g0.unwrap()).unwrap();
                let w = if nm == "bswap" { 8 } else { 1 };
                let x = self.int(&a[0])?;
                let x = self.wrap(st, x, b, false)?;
                let mut ts = vec![];
                for i in 0..b / w {
                    ts.push((Z::pow2(b - w - i * w), self.ar.extract(&st.facts, x, i * w, w)));
                }
                let t = self.ar.lin(Z::ZERO, ts);
                V::Int(self.wrap(st, t, b, s)?)
            }
            "carrying_mul_add" => {
                let (b, s) = self.int_ty(g0.unwrap()).unwrap();
                let ts: Vec<TermId> = a.iter().map(|v| self.int(v)).collect::<R<_>>()?;
                let m = self.mul(st, ts[0], ts[1])?;
                let t = self.ar.lin(Z::ZERO, vec![(Z::one(), m), (Z::one(), ts[2]), (Z::one(), ts[3])]);
                let lo = self.ar.extract(&st.facts, t, 0, b);
                let hi = self.ar.div2(&st.facts, t, b);
                let hi = self.wrap(st, hi, b, s)?;
                V::Agg(Rc::new(Agg { var: 0, f: vec![V::Int(lo), V::Int(hi)] }))
            }
            "exact_div" | "unchecked_div" | "unchecked_rem" => {
                let (b, s) = self.int_ty(g0.unwrap()).unwrap();
                let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                if s && !(self.cond(st, Cond::Ge0(x))? && self.cond(st, Cond::Ge0(y))?) {
                    return unsup("division of a negative value");
                }
                if self.cond(st, Cond::Eq0(y))? {
                    return Err(E::Panic("division by zero".into()));
                }
                let t = if nm == "unchecked_rem" { self.ar.rem(&st.facts, x, y) } else { self.ar.div(&st.facts, x, y) };
                V::Int(self.wrap(st, t, b, s)?)
            }
            "unchecked_shl" | "unchecked_shr" => {
                let (b, s) = self.int_ty(g0.unwrap()).unwrap();
                let (x, n) = (self.int(&a[0])?, self.int(&a[1])?);
                let n = self.need(st, n)?.to_i64() as u32 % b;
                if nm == "unchecked_shl" {
                    let t = self.ar.scale(x, Z::pow2(n));
                    V::Int(self.wrap(st, t, b, s)?)
                } else {
                    V::Int(self.ar.div2(&st.facts, x, n))
                }
            }
            "select_unpredictable" => {
                let c = self.int(&a[0])?;
                if self.cond(st, Cond::Eq0(c))? {
                    a[2].clone()
                } else {
                    a[1].clone()
                }
            }
            "memrchr_aligned" => {
                let x = self.int(&a[0])?;
                let V::Ptr(p) = &a[1] else { return unsup("memrchr") };
                let n = match p.meta {
                    Some(m) => self.need(st, m)?.to_i64(),
                    None => return unsup("memrchr"),
                };
                for i in (0..n).rev() {
                    let q = Self::ptr_off(p, i);
                    let v = self.read(st, &q.base, &q.path)?;
                    let v = self.int(&v)?;
                    if self.eq(st, v, x)? {
                        let f = vec![self.k(i as i128)];
                        return Ok(V::Agg(Rc::new(Agg { var: 1, f })));
                    }
                }
                V::Agg(Rc::new(Agg { var: 0, f: vec![] }))
            }
            "ctlz" | "ctlz_nonzero" => {
                let (b, s) = self.int_ty(g0.unwrap()).unwrap();
                let x = self.int(&a[0])?;
                let x = if s {
                    if self.cond(st, Cond::Ge0(x))? {
                        x
                    } else {
                        return Ok(self.k(0));
                    }
                } else {
                    x
                };
                let n = self.bitlen(st, x)?;
                self.k((b - n) as i128)
            }
            "cttz" | "cttz_nonzero" => {
                let (b, _) = self.int_ty(g0.unwrap()).unwrap();
                let x = self.int(&a[0])?;
                let n = self.tz(st, x, b)?;
                self.k(n as i128)
            }
            "ctpop" => {
                let x = self.int(&a[0])?;
                // is_power_of_two and friends: count bits of a sum of disjoint windows
                let z = match self.cval(st, x) {
                    Some(z) => z,
                    None => return self.popcount(st, x),
                };
                let mut n = 0;
                for i in 0..z.bitlen() {
                    n += z.bit(i) as i128;
                }
                self.k(n)
            }
            "discriminant_value" => {
                let V::Ptr(p) = &a[0] else { return unsup("discriminant_value") };
                let v = self.read(st, &p.base, &p.path)?;
                self.discr(st, &v, g0.unwrap(), dty)?
            }
            "typed_swap_nonoverlapping" => {
                let (V::Ptr(p), V::Ptr(q)) = (&a[0], &a[1]) else { return unsup("swap") };
                let x = self.read(st, &p.base, &p.path)?;
                let y = self.read(st, &q.base, &q.path)?;
                self.write(st, &p.base, &p.path, y)?;
                self.write(st, &q.base, &q.path, x)?;
                unit
            }
            "copy_nonoverlapping" | "copy" => {
                let n = self.int(&a[2])?;
                self.copy_n(st, a[0].clone(), a[1].clone(), n)?;
                unit
            }
            "write_bytes" => {
                let (V::Ptr(p), v, n) = (&a[0], self.int(&a[1])?, self.int(&a[2])?) else { return unsup("write_bytes") };
                if self.cval(st, v) != Some(Z::ZERO) && self.int_ty(g0.unwrap()).map(|x| x.0) != Some(8) {
                    return unsup("write_bytes");
                }
                let n = self.need(st, n)?.to_i64();
                for i in 0..n {
                    let q = Self::ptr_off(p, i);
                    self.write(st, &q.base, &q.path, V::Int(v))?;
                }
                unit
            }
            "ptr_offset_from_unsigned" | "ptr_offset_from" => {
                let (V::Ptr(p), V::Ptr(q)) = (&a[0], &a[1]) else { return unsup("offset_from") };
                match Self::ptr_diff(p, q) {
                    Some(d) => self.k(d as i128),
                    None => {
                        if let (Base::Addr(x), Base::Addr(y)) = (&p.base, &q.base) {
                            if p.path.is_empty() && q.path.is_empty() && x == y {
                                return Ok(self.k(0));
                            }
                        }
                        return unsup("offset_from of different objects");
                    }
                }
            }
            "raw_eq" => {
                let (V::Ptr(p), V::Ptr(q)) = (&a[0], &a[1]) else { return unsup("raw_eq") };
                let x = self.read(st, &p.base, &p.path)?;
                let y = self.read(st, &q.base, &q.path)?;
                let r = self.vals_eq(st, &x, &y)?;
                self.k(r as i128)
            }
            "compare_bytes" => {
                let (V::Ptr(p), V::Ptr(q), n) = (&a[0], &a[1], self.int(&a[2])?) else { return unsup("compare_bytes") };
                let n = self.need(st, n)?.to_i64();
                for i in 0..n {
                    let (p, q) = (Self::ptr_off(p, i), Self::ptr_off(q, i));
                    let x = self.read(st, &p.base, &p.path)?;
                    let y = self.read(st, &q.base, &q.path)?;
                    let (x, y) = (self.int(&x)?, self.int(&y)?);
                    if !self.eq(st, x, y)? {
                        let r = if self.lt(st, x, y)? { -1 } else { 1 };
                        return Ok(self.k(r));
                    }
                }
                self.k(0)
            }
            "three_way_compare" => {
                let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                let r = if self.eq(st, x, y)? {
                    0
                } else if self.lt(st, x, y)? {
                    255
                } else {
                    1
                };
                self.k(r)
            }
            "abort" => return Err(E::Panic("abort".into())),
            // a heap block: a cell of the entry's frame, one element per unit of alignment
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let (n, al) = (self.int(&a[0])?, self.int(&a[1])?);
                let (n, al) = (self.need(st, n)?.to_i64(), self.need(st, al)?.to_i64());
                if n % al != 0 {
                    return unsup("heap block of mixed elements");
                }
                let z = if nm == "__rust_alloc" { V::Undef } else { self.k(0) };
                self.heap(st, vec![z; (n / al) as usize])
            }
            "__rust_realloc" => {
                let V::Ptr(p) = &inner(&a[0]) else { return unsup("realloc") };
                let (al, n) = (self.int(&a[2])?, self.int(&a[3])?);
                let (al, n) = (self.need(st, al)?.to_i64(), self.need(st, n)?.to_i64());
                let (Base::Local(0, _), [S::I(0)]) = (&p.base, &p.path[..]) else { return unsup("realloc of a non-heap pointer") };
                let V::Agg(old) = self.root(st, &p.base)? else { return unsup("realloc after free") };
                if n % al != 0 {
                    return unsup("heap block of mixed elements");
                }
                let mut f = old.f.clone();
                f.resize((n / al) as usize, V::Undef);
                self.write(st, &p.base, &[], V::Undef)?;
                self.heap(st, f)
            }
            "__rust_dealloc" => {
                let V::Ptr(p) = &inner(&a[0]) else { return unsup("dealloc") };
                let (Base::Local(0, _), [S::I(0)]) = (&p.base, &p.path[..]) else { return unsup("dealloc of a non-heap pointer") };
                self.write(st, &p.base, &[], V::Undef)?;
                unit
            }
            _ => {
                // a tuple constructor used as a function
                if let TyK::Adt { kind, vs, .. } = &ir.types[dty].k {
                    let var = if *kind == AdtKind::Struct { Some(0) } else { vs.iter().position(|v| v.name == nm) };
                    if let Some(i) = var {
                        if ir.fns[callee].intrinsic.is_none() && vs[i].fields.len() == a.len() && (vs[i].name == nm) {
                            return Ok(V::Agg(Rc::new(Agg { var: i as u32, f: a.to_vec() })));
                        }
                    }
                }
                return unsup(format!("no body: {} [{nm}]", ir.fns[callee].name))
            }
        })
    }
    fn bitlen(&mut self, st: &State, x: TermId) -> R<u32> {
        let (l, h) = self.ar.range(&st.facts, x);
        if l.is_neg() {
            return unsup("bit length of a negative value");
        }
        if h.bitlen() > 900 {
            unsup("bit length of a huge value")
        } else if l.bitlen() == h.bitlen() {
            Ok(h.bitlen())
        } else {
            let b = self.ar.strip_low(&st.facts, x, INF);
            if !matches!(self.ar.terms[b as usize], T::Atom(_)) && !self.ar.range(&st.facts, b).0.is_neg() && !self.windows(st, b) {
                self.ar.pending = Some(b);
            }
            Err(E::SplitBits(x))
        }
    }
    /// a sum of disjoint bit windows
    fn windows(&self, st: &State, t: TermId) -> bool {
        let (c, ts) = self.ar.as_lin(t);
        let mut acc = c;
        if c.is_neg() {
            return false;
        }
        for (k, x) in ts {
            let (l, h) = self.ar.range(&st.facts, x);
            if k.tz() > 500 || h.bitlen() > 500 {
                return false;
            }
            let m = Z::mask(h.bitlen()).shl(k.tz());
            if l.is_neg() || k != Z::pow2(k.tz()) || !acc.and(m).is_zero() || !matches!(self.ar.terms[x as usize], T::Atom(_) | T::Slice(..)) {
                return false;
            }
            acc = acc.or(m);
        }
        true
    }
    fn tz(&mut self, st: &State, x: TermId, bits: u32) -> R<u32> {
        if let Some(z) = self.cval(st, x) {
            return Ok(if z.is_zero() { bits } else { z.tz() });
        }
        for k in 0..bits {
            let m = self.ar.mod2(&st.facts, x, k + 1);
            match self.ar.decide(&st.facts, Cond::Eq0(m)) {
                Some(true) => {}
                Some(false) => return Ok(k),
                None => return Err(E::SplitTz(x, bits)),
            }
        }
        Ok(bits)
    }
    fn popcount(&mut self, st: &State, x: TermId) -> R<V> {
        // exact only when decided to be a power of two or at least two bits are set
        let n = self.bitlen(st, x)?;
        if n == 0 {
            return Ok(self.k(0));
        }
        let rest = self.ar.addc(x, -Z::pow2(n - 1));
        if self.cond(st, Cond::Eq0(rest))? {
            return Ok(self.k(1));
        }
        // at least two bits: an over-approximation 2..=bits
        let t = self.ar.new_atom(Z::i(2), Z::i(n as i128), "popcount".into(), false, true);
        Ok(V::Int(t))
    }

    // ---------- probe runtime ----------
    fn rt(&mut self, st: &mut State, name: &str, a: &[V], _f: usize) -> R<V> {
        let n = last_name(name).to_string();
        let unit = V::Agg(Rc::new(Agg { var: 0, f: vec![] }));
        Ok(match n.as_str() {
            "any" | "any_i" => {
                let nm = self.read_str(st, &a[0])?;
                let b = self.int(&a[1])?;
                let b = self.need(st, b)?.to_i64() as u32;
                let (l, h) = if n == "any_i" { Self::lims(b, true) } else { Self::lims(b, false) };
                self.fresh(st, nm, l, h)?
            }
            "any_in" | "any_iin" => {
                let nm = self.read_str(st, &a[0])?;
                let (l, h) = (self.int(&a[1])?, self.int(&a[2])?);
                let (l, h) = (self.need(st, l)?, self.need(st, h)?);
                self.fresh(st, nm, l, h)?
            }
            "havoc_in" => {
                let (l, h) = (self.int(&a[0])?, self.int(&a[1])?);
                let (l, h) = (self.need(st, l)?, self.need(st, h)?);
                V::Int(self.ar.new_atom(l, h, "havoc".into(), false, true))
            }
            "join" => {
                if !st.joined {
                    return Err(E::Park);
                }
                st.joined = false;
                unit
            }
            "refine" => {
                st.late = 2;
                unit
            }
            "round_mode" => {
                let nm = self.read_str(st, &a[0])?;
                self.fresh(st, nm, Z::ZERO, Z::i(4))?
            }
            "assume" => {
                let t = self.int(&a[0])?;
                if self.need(st, t)?.is_zero() {
                    return Err(E::Dead);
                }
                unit
            }
            "split" => {
                let t = self.int(&a[0])?;
                let z = self.need(st, t)?;
                V::Int(self.ar.konst(z))
            }
            "check" => {
                let id = self.read_str(st, &a[1])?;
                let t = self.int(&a[0])?;
                let ok = !self.need(st, t)?.is_zero();
                self.obligation(st, &id, ok, None, String::new())?;
                unit
            }
            "check_eq" | "z_check_eq" | "check_eq_i" => {
                let id = self.read_str(st, &a[2])?;
                let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                self.check_eq(st, x, y, &id)?;
                unit
            }
            "reach" => {
                let id = self.read_str(st, &a[0])?;
                self.obligation(st, &id, true, None, String::new())?;
                unit
            }
            "z" | "zi" | "z_u32" => a[0].clone(),
            "z_add" | "z_sub" | "z_mul" => {
                let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                V::Int(match n.as_str() {
                    "z_add" => self.ar.add(x, y),
                    "z_sub" => self.ar.sub(x, y),
                    _ => self.mul(st, x, y)?,
                })
            }
            "z_neg" => {
                let x = self.int(&a[0])?;
                V::Int(self.ar.scale(x, Z::i(-1)))
            }
            "z_shl" | "z_shr" | "z_low" => {
                let (x, k) = (self.int(&a[0])?, self.int(&a[1])?);
                let k = self.need(st, k)?.to_i64() as u32;
                V::Int(match n.as_str() {
                    "z_shl" => {
                        let (l, h) = self.ar.range(&st.facts, x);
                        if l.abs().bitlen().max(h.abs().bitlen()) + k > 64 * crate::z::N as u32 - 16 {
                            return unsup("exact integer too wide");
                        }
                        self.ar.scale(x, Z::pow2(k))
                    }
                    "z_shr" => self.ar.div2(&st.facts, x, k),
                    _ => self.ar.mod2(&st.facts, x, k),
                })
            }
            "z_bitlen" => {
                let x = self.int(&a[0])?;
                let n = self.bitlen(st, x)?;
                self.k(n as i128)
            }
            "z_tz" => {
                let x = self.int(&a[0])?;
                let n = self.tz(st, x, 512)?;
                self.k(n as i128)
            }
            "z_lt" => {
                let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                let r = self.lt(st, x, y)?;
                self.k(r as i128)
            }
            "z_eq" => {
                let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                let r = self.eq(st, x, y)?;
                self.k(r as i128)
            }
            "z_u128" | "z_i128" => {
                let x = self.int(&a[0])?;
                V::Int(self.wrap(st, x, 128, n == "z_i128")?)
            }
            "concrete_str" => a[0].clone(),
            "unsupported" => return unsup("outside the contract"),
            "stub" => {
                let (V::Fn(r), V::Fn(w)) = (&a[0], &a[1]) else { return unsup("stub of a computed function") };
                self.stubs.insert(*r, *w);
                unit
            }
            "share" => {
                let nm = self.read_str(st, &a[0])?;
                self.shared.insert(nm, a[1].clone());
                unit
            }
            "shared" => {
                let nm = self.read_str(st, &a[0])?;
                match self.shared.get(&nm) {
                    Some(v) => v.clone(),
                    None => return unsup(format!("shared {nm}")),
                }
            }
            _ => return unsup(format!("rt op {n}")),
        })
    }
    fn fresh(&mut self, st: &mut State, nm: String, l: Z, h: Z) -> R<V> {
        if let Some((_, v)) = self.bud.pre.iter().find(|p| p.0 == nm) {
            let v = Z::i(*v);
            if v < l || v > h {
                return Err(E::Dead);
            }
            Rc::make_mut(&mut st.fixed).push((nm, v));
            return Ok(V::Int(self.ar.konst(v)));
        }
        if l == h {
            return Ok(V::Int(self.ar.konst(l)));
        }
        let t = self.ar.new_atom(l, h, nm, true, false);
        if let T::Atom(a) = self.ar.terms[t as usize] {
            Rc::make_mut(&mut st.roots).push(a);
        }
        Ok(V::Int(t))
    }
    fn check_eq(&mut self, st: &mut State, x: TermId, y: TermId, id: &str) -> R<()> {
        let d0 = self.ar.sub(x, y);
        let mut r = self.ar.decide(&st.facts, Cond::Eq0(d0));
        let mut d = d0;
        if r.is_none() {
            d = self.ar.renorm(&st.facts, d0);
            r = self.ar.decide(&st.facts, Cond::Eq0(d));
        }
        match r {
            Some(true) => self.obligation(st, id, true, None, String::new())?,
            Some(false) => {
                let w = format!("got {} expected {}", self.ar.show(x), self.ar.show(y));
                self.obligation(st, id, false, None, w)?
            }
            None if self.ar.pending.is_some() && st.named < 200 => return Err(E::Split(Cond::Eq0(d0))),
            None => {
                let w = format!("got {} expected {}", self.ar.show(x), self.ar.show(y));
                // is there a member of the abstract state for which they differ?
                let mut f2 = st.facts.clone();
                if self.ar.refine(&mut f2, Cond::Eq0(d), false).is_none() {
                    self.obligation(st, id, true, None, String::new())?;
                } else {
                    self.obligation(st, id, false, Some((Cond::Eq0(d), false)), w)?
                }
            }
        }
        Ok(())
    }
    /// an undecided obligation: the narrowest value the state's facts speak about, to be partitioned on
    fn narrowest(&mut self, st: &State) -> Option<TermId> {
        if st.late == 0 {
            return None;
        }
        let mut at = vec![];
        for (t, _) in st.facts.r.iter() {
            self.ar.atoms_of(*t, &mut at);
        }
        for (t, _) in st.facts.ne.iter() {
            self.ar.atoms_of(*t, &mut at);
        }
        at.sort();
        at.dedup();
        let mut best: Option<(Z, u32)> = None;
        for a in at {
            let t = self.ar.atom_term(a);
            let (l, h) = self.ar.range(&st.facts, t);
            let n = h - l;
            if n > Z::ZERO && n <= Z::i(255) && best.as_ref().map_or(true, |b| n < b.0) {
                best = Some((n, a));
            }
        }
        best.map(|b| self.ar.atom_term(b.1))
    }
    fn obligation(&mut self, st: &State, id: &str, ok: bool, extra: Option<(Cond, bool)>, what: String) -> R<()> {
        if ok {
            self.res.stats.entry(id.into()).or_default().discharged += 1;
            return Ok(());
        }
        let t0 = Instant::now();
        let w = if self.wit_secs < self.bud.secs * 0.3 + 2.0 { self.witness(st, extra) } else { None };
        self.wit_secs += t0.elapsed().as_secs_f64();
        if w.is_none() {
            if let Some(t) = self.narrowest(st) {
                return Err(E::Late(t));
            }
        }
        let (file, func, line) = self.site(st);
        let s = self.res.stats.entry(id.into()).or_default();
        let mut rep = Report { check: id.into(), what, file, func, line, inputs: vec![], trail: vec![], facts: vec![] };
        rep.trail = Self::trail(self.ir, st);
        if self.bud.verbose || self.bud.trace {
            let mut l = st.log.clone();
            while let Some(n) = l {
                let (k, t) = match n.c {
                    Cond::Ge0(t) => (">=0", t),
                    Cond::Eq0(t) => ("==0", t),
                };
                rep.facts.push(format!("{} {} {} @{}:{}", self.ar.show(t), k, n.v, self.ir.fns[n.f].name, n.line));
                l = n.prev.clone();
            }
            rep.facts.reverse();
            for (t, r) in st.facts.r.iter() {
                rep.facts.push(format!("FACT {} in {}..{}", self.ar.show(*t), r.0, r.1));
            }
            for (t, r) in st.facts.ne.iter() {
                rep.facts.push(format!("FACT {} != {}", self.ar.show(*t), r));
            }
        }
        match w {
            Some(inp) => {
                s.violated += 1;
                rep.inputs = inp;
                rep.inputs.extend(st.fixed.iter().cloned());
                if self.res.reports.iter().filter(|r| r.check == rep.check).count() < 3 {
                    self.res.reports.push(rep);
                }
            }
            None => {
                s.undecided += 1;
                if self.res.undecided.len() < 30 {
                    self.res.undecided.push(rep);
                }
            }
        }
        Ok(())
    }
    fn site(&self, st: &State) -> (String, String, u32) {
        // innermost frame of the analysed crate, else the innermost frame
        for fr in st.fr.iter().rev() {
            let f = &self.ir.fns[fr.f];
            if f.krate == "rustc_apfloat" {
                return self.at(fr);
            }
        }
        self.at(st.fr.last().unwrap())
    }
    fn at(&self, fr: &Frame) -> (String, String, u32) {
        let f = &self.ir.fns[fr.f];
        let b = &f.blocks[fr.bb];
        let line = if fr.si < b.s.len() { b.s[fr.si].1 } else { b.line };
        (b.file.clone(), f.name.clone(), line)
    }
    fn trail(ir: &Ir, st: &State) -> Vec<String> {
        let mut v = vec![];
        let mut l = st.log.clone();
        while let Some(n) = l {
            let f = &ir.fns[n.f];
            if f.krate == "rustc_apfloat" && v.len() < 40 {
                let s = format!("{}:{} in {}: branch {}", n.file, n.line, f.name, n.v);
                v.push(s);
            }
            l = n.prev.clone();
        }
        v.reverse();
        v
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    /// a member of the concretisation of the abstract state (and of `extra`)
    fn witness(&mut self, st: &State, extra: Option<(Cond, bool)>) -> Option<Vec<(String, Z)>> {
        let mut conds: Vec<(Cond, bool)> = vec![];
        if let Some(e) = extra {
            conds.push(e);
        }
        let mut l = st.log.clone();
        while let Some(n) = l {
            conds.push((n.c, n.v));
            l = n.prev.clone();
        }
        let mut subs = vec![];
        let mut l = st.sub.clone();
        while let Some(n) = l {
            if let T::Atom(a) = self.ar.terms[n.a as usize] {
                subs.push((a, n.t));
            }
            l = n.prev.clone();
        }
        let roots = st.roots.clone();
        let mut probe: Vec<u32> = vec![];
        for (c, _) in &conds {
            let t = match c {
                Cond::Ge0(t) | Cond::Eq0(t) => *t,
            };
            self.ar.atoms_of(t, &mut probe);
        }
        for (_, t) in &subs {
            self.ar.atoms_of(*t, &mut probe);
        }
        probe.extend(roots.iter());
        probe.sort();
        probe.dedup();
        if probe.iter().any(|a| self.ar.atoms[*a as usize].havoc) {
            return None;
        }
        let substituted: std::collections::HashSet<u32> = subs.iter().map(|x| x.0).collect();
        let leaves: Vec<u32> = probe.iter().cloned().filter(|a| !substituted.contains(a)).collect();
        let mut rngs = vec![];
        for &a in &leaves {
            let t = self.ar.atom_term(a);
            rngs.push(self.ar.range(&st.facts, t));
        }
        for k in 0..3000u32 {
            let mut val: HashMap<u32, Z> = HashMap::new();
            for (i, &a) in leaves.iter().enumerate() {
                let (lo, hi) = rngs[i];
                let w = hi - lo;
                let m = if k < 8 { k as u64 & 7 } else { self.rand() % 9 };
                let r = Z::u(((self.rand() as u128) << 64) | self.rand() as u128);
                let off = match m {
                    0 => Z::ZERO,
                    1 => w,
                    2 => Z::one().min(w),
                    3 => {
                        if w.is_zero() {
                            w
                        } else {
                            w - Z::one()
                        }
                    }
                    4 => w.shr(1),
                    5 => {
                        let b = w.bitlen().max(1);
                        Z::pow2((self.rand() % b as u64) as u32).min(w)
                    }
                    6 => {
                        let b = w.bitlen().max(1);
                        r.modp2((self.rand() % b as u64) as u32 + 1).min(w)
                    }
                    _ => r.divrem(w + Z::one()).1,
                };
                val.insert(a, lo + off);
            }
            // back to the inputs: newest substitution first
            let mut ok = true;
            for (a, t) in &subs {
                let mut memo = HashMap::new();
                match self.ar.eval(*t, &mut |x| *val.get(&x).unwrap_or(&Z::ZERO), &mut memo) {
                    Some(z) => {
                        let i = &self.ar.atoms[*a as usize];
                        if z < i.lo || z > i.hi {
                            ok = false;
                            break;
                        }
                        val.insert(*a, z);
                    }
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok {
                continue;
            }
            // forward from the inputs: every condition of the state must hold
            let rootv: HashMap<u32, Z> = roots.iter().map(|a| (*a, val.get(a).cloned().unwrap_or(Z::ZERO))).collect();
            let mut atoms: HashMap<u32, Z> = HashMap::new();
            let mut memo = HashMap::new();
            for (c, v) in conds.iter().rev() {
                let r = match c {
                    Cond::Ge0(t) => self.ar.eval_fwd(*t, &rootv, &mut atoms, &mut memo).map(|z| !z.is_neg()),
                    Cond::Eq0(t) => self.ar.eval_fwd(*t, &rootv, &mut atoms, &mut memo).map(|z| z.is_zero()),
                };
                if r != Some(*v) {
                    ok = false;
                    break;
                }
            }
            if ok {
                return Some(roots.iter().map(|a| (self.ar.atoms[*a as usize].name.clone(), rootv[a])).collect());
            }
        }
        None
    }

    // ---------- partitioning ----------
    fn sub_v(&mut self, f: &Facts, v: &V, a: TermId, by: TermId, memo: &mut HashMap<TermId, TermId>) -> Option<V> {
        match v {
            V::Int(t) => {
                let n = self.ar.subst(f, *t, a, by, memo);
                if n == *t {
                    None
                } else {
                    Some(V::Int(n))
                }
            }
            V::Pow(c, o) => {
                let n = self.ar.subst(f, *c, a, by, memo);
                if n == *c {
                    None
                } else if let Some(z) = self.ar.as_const(n) {
                    Some(V::Int(self.ar.konst(Z::pow2(z.to_i64() as u32) + *o)))
                } else {
                    Some(V::Pow(n, *o))
                }
            }
            V::Agg(g) => {
                let mut out: Option<Vec<V>> = None;
                for (i, x) in g.f.iter().enumerate() {
                    if let Some(n) = self.sub_v(f, x, a, by, memo) {
                        out.get_or_insert_with(|| g.f.clone())[i] = n;
                    }
                }
                out.map(|f| V::Agg(Rc::new(Agg { var: g.var, f })))
            }
            V::Ptr(p) => {
                let m = match p.meta {
                    Some(m) => {
                        let n = self.ar.subst(f, m, a, by, memo);
                        if n != m {
                            Some(n)
                        } else {
                            None
                        }
                    }
                    None => None,
                };
                m.map(|m| {
                    let mut q = (**p).clone();
                    q.meta = Some(m);
                    V::Ptr(Rc::new(q))
                })
            }
            _ => None,
        }
    }
    fn assume(&mut self, st: &mut State, conds: &[(Cond, bool)]) -> Option<()> {
        let mut pend: Vec<(Cond, bool)> = conds.to_vec();
        pend.reverse();
        let (file, fnid, line) = {
            let fr = st.fr.last().unwrap();
            let b = &self.ir.fns[fr.f].blocks[fr.bb];
            let line = if fr.si < b.s.len() { b.s[fr.si].1 } else { b.line };
            (b.file.clone(), fr.f, line)
        };
        let mut left = conds.len() + 200;
        while let Some((c, v)) = pend.pop() {
            if left == 0 {
                // forgetting the remaining consequences is an over-approximation
                break;
            }
            left -= 1;
            st.log = Some(Rc::new(Log { c, v, f: fnid, line, file: file.as_str().into(), prev: st.log.take() }));
            let mut facts = st.facts.clone();
            let subs = self.ar.refine(&mut facts, c, v)?;
            st.facts = facts;
            for (a, t) in subs {
                let mut memo = HashMap::new();
                let f = st.facts.clone();
                let mut eqs = vec![];
                self.sub_state(st, a, t, &mut memo, &mut eqs);
                for p in pend.iter_mut() {
                    p.0 = match p.0 {
                        Cond::Ge0(x) => Cond::Ge0(self.ar.subst(&f, x, a, t, &mut memo)),
                        Cond::Eq0(x) => Cond::Eq0(self.ar.subst(&f, x, a, t, &mut memo)),
                    };
                }
                pend.extend(eqs.into_iter().map(|d| (Cond::Eq0(d), true)));
            }
        }
        Some(())
    }
    fn sub_state(&mut self, st: &mut State, a: TermId, t: TermId, memo: &mut HashMap<TermId, TermId>, eqs: &mut Vec<TermId>) {
        st.sub = Some(Rc::new(SubLog { a, t, prev: st.sub.take() }));
        let f = st.facts.clone();
        if !st.rw.is_empty() {
            let old = st.rw.clone();
            let mut v = vec![];
            for (k, x) in old.iter() {
                let nk = self.ar.subst(&f, *k, a, t, memo);
                let nx = self.ar.subst(&f, *x, a, t, memo);
                if nk == *k {
                    v.push((nk, nx));
                    continue;
                }
                // solve the substituted key for one of its unit products
                let (c, ts) = self.ar.as_lin(nk);
                if let Some(i) = ts.iter().position(|y| y.0.is_one() && matches!(self.ar.terms[y.1 as usize], T::Prod(_))) {
                    let mut r: Vec<_> = ts.iter().enumerate().filter(|y| y.0 != i).map(|y| (-y.1 .0, y.1 .1)).collect();
                    r.push((Z::one(), nx));
                    let r = self.ar.lin(-c, r);
                    v.push((ts[i].1, r));
                } else {
                    let d = self.ar.sub(nk, nx);
                    eqs.push(d);
                }
            }
            st.rw = Rc::new(v);
        }
        for i in 0..st.fr.len() {
            let mut upd = vec![];
            for (j, x) in st.fr[i].l.iter().enumerate() {
                if let Some(n) = self.sub_v(&f, x, a, t, memo) {
                    upd.push((j, n));
                }
            }
            if !upd.is_empty() {
                let fr = Rc::make_mut(&mut st.fr[i]);
                for (j, n) in upd {
                    fr.l[j] = n;
                }
            }
        }
    }
    /// change of variables: give the term `b` a name, eliminating one of its unit terms
    fn name(&mut self, st: &mut State, b: TermId) -> Option<bool> {
        let target = b;
        let (b, div) = match self.ar.terms[b as usize] {
            T::Div(a, y) => (a, self.ar.as_const(y)),
            _ => (b, None),
        };
        let (c, ts) = self.ar.as_lin(b);
        let (lo, hi) = self.ar.range(&st.facts, b);
        if lo.is_neg() || lo == hi {
            return Some(false);
        }
        let mut best: Option<(usize, (bool, Z))> = None;
        for (i, (k, x)) in ts.iter().enumerate() {
            if !k.abs().is_one() {
                continue;
            }
            let mut others = vec![];
            for (j, y) in ts.iter().enumerate() {
                if j != i {
                    self.ar.atoms_of(y.1, &mut others);
                }
            }
            let atom = match self.ar.terms[*x as usize] {
                T::Atom(a) => {
                    if others.contains(&a) {
                        continue;
                    }
                    true
                }
                _ => false,
            };
            let (l, h) = self.ar.range(&st.facts, *x);
            // prefer products, then the widest atom
            let key = (!atom, h - l);
            if best.as_ref().map_or(true, |b| key > b.1) {
                best = Some((i, key));
            }
        }
        let Some((i, _)) = best else { return Some(false) };
        let k = ts[i].0;
        // k*u + rest + c = n
        let mut v: Vec<_> = ts.iter().enumerate().filter(|x| x.0 != i).map(|x| (-(x.1 .0 * k), x.1 .1)).collect();
        match div {
            None => {
                let n = self.ar.new_atom(lo, hi, format!("n{}", self.ar.atoms.len()), false, false);
                self.ar.define(n, b);
                v.push((k, n));
            }
            Some(y) => {
                // k*u + rest + c = y*q + r
                let q = self.ar.new_atom(lo.divrem(y).0, hi.divrem(y).0, format!("q{}", self.ar.atoms.len()), false, false);
                self.ar.define(q, target);
                v.push((k * y, q));
                let r = self.ar.new_atom(Z::ZERO, y - Z::one(), format!("r{}", self.ar.atoms.len()), false, false);
                let y = self.ar.konst(y);
                let d = self.ar.intern(T::Rem(b, y));
                self.ar.define(r, d);
                v.push((k, r));
            }
        }
        let s = self.ar.lin(-(c * k), v);
        let mut facts = st.facts.clone();
        let mut out = vec![];
        self.ar.apply(&mut facts, ts[i].1, s, &mut out)?;
        st.facts = facts;
        let u = ts[i].1;
        let mut eqs = vec![];
        for (a, t) in out {
            let mut memo = HashMap::new();
            self.sub_state(st, a, t, &mut memo, &mut eqs);
        }
        if !eqs.is_empty() {
            let conds: Vec<_> = eqs.into_iter().map(|d| (Cond::Eq0(d), true)).collect();
            self.assume(st, &conds)?;
        }
        if matches!(self.ar.terms[u as usize], T::Prod(_)) {
            Rc::make_mut(&mut st.rw).push((u, s));
        }
        Some(true)
    }

    // ---------- joins ----------
    fn is_root_bit(&mut self, p: &[(Cond, bool)]) -> bool {
        let [(Cond::Eq0(t) | Cond::Ge0(t), _)] = p else { return false };
        let (core, _, _) = self.ar.core(*t);
        match self.ar.terms[core as usize] {
            T::Atom(a) => self.ar.atoms[a as usize].root && self.ar.atoms[a as usize].hi.is_one(),
            _ => false,
        }
    }
    /// follow a state to the return of frame `d` if nothing partitions it on the way;
    /// the state is left at the last point reached
    fn run_to_return(&mut self, st: &mut State, d: usize) -> bool {
        for _ in 0..400 {
            if st.fr.len() < d {
                return true;
            }
            let fr = st.fr.last().unwrap();
            let f = &self.ir.fns[fr.f];
            let b = &f.blocks[fr.bb];
            if fr.si >= b.s.len() {
                if let Term::Call(Callee::Fn(k), ..) = &b.t {
                    let c = &self.ir.fns[*k];
                    if c.krate == "probe" && c.name.starts_with("probe::rt::") {
                        return false;
                    }
                }
            }
            let save = st.clone();
            self.ar.pending = None;
            crate::z::take_overflow();
            if self.step(st).is_err() || self.ar.pending.take().is_some() | crate::z::take_overflow() {
                *st = save;
                return false;
            }
        }
        false
    }
    /// exact joins: two states that differ only in a two-valued atom become one
    fn join_all(&mut self, mut v: Vec<State>) -> Vec<State> {
        let n0 = v.len();
        if n0 > 4096 {
            return v;
        }
        let mut i = 0;
        while i < v.len() {
            let mut j = i + 1;
            let mut hit = false;
            while j < v.len() {
                let r = self.join2(&v[i], &v[j]);
                if let Some(s) = r {
                    v[i] = s;
                    v.remove(j);
                    hit = true;
                } else {
                    j += 1;
                }
            }
            i = if hit { 0 } else { i + 1 };
        }
        self.res.joins += (n0 - v.len()) as u64;
        v
    }
    fn join_v(&mut self, a: &V, b: &V, x: TermId) -> Option<V> {
        Some(match (a, b) {
            (V::Undef, V::Undef) => V::Undef,
            (V::Opaque, V::Opaque) => V::Opaque,
            (V::Fn(p), V::Fn(q)) if p == q => V::Fn(*p),
            (V::Pow(p, x), V::Pow(q, y)) if p == q && x == y => a.clone(),
            (V::Int(p), V::Int(q)) => {
                if p == q {
                    return Some(V::Int(*p));
                }
                let d = self.ar.sub(*q, *p);
                let c = self.ar.as_const(d)?;
                V::Int(self.ar.lin(Z::ZERO, vec![(Z::one(), *p), (c, x)]))
            }
            (V::Agg(p), V::Agg(q)) if p.var == q.var && p.f.len() == q.f.len() => {
                if Rc::ptr_eq(p, q) {
                    return Some(a.clone());
                }
                let mut f = Vec::with_capacity(p.f.len());
                for i in 0..p.f.len() {
                    f.push(self.join_v(&p.f[i], &q.f[i], x)?);
                }
                V::Agg(Rc::new(Agg { var: p.var, f }))
            }
            (V::Ptr(p), V::Ptr(q)) if p == q => a.clone(),
            _ => return None,
        })
    }
    fn join2(&mut self, s: &State, t: &State) -> Option<State> {
        if s.fr.len() != t.fr.len() || s.roots != t.roots || s.rw != t.rw {
            return None;
        }
        for (a, b) in s.fr.iter().zip(t.fr.iter()) {
            if (a.f, a.bb, a.si, a.l.len()) != (b.f, b.bb, b.si, b.l.len()) {
                return None;
            }
        }
        if s.facts.r != t.facts.r || s.facts.ne != t.facts.ne {
            return None;
        }
        let subs = |st: &State| {
            let mut v = vec![];
            let mut l = st.sub.clone();
            while let Some(n) = l {
                v.push((n.a, n.t));
                l = n.prev.clone();
            }
            v
        };
        let (sa, sb) = (subs(s), subs(t));
        if sa.len() != sb.len() {
            return None;
        }
        let mut x = None;
        for (p, q) in sa.iter().zip(sb.iter()) {
            if p != q {
                if p.0 != q.0 || x.is_some() {
                    return None;
                }
                let (u, w) = (self.ar.as_const(p.1)?, self.ar.as_const(q.1)?);
                let swap = u.is_one() && w.is_zero();
                if !(u.is_zero() && w.is_one()) && !swap {
                    return None;
                }
                x = Some((p.0, swap));
            }
        }
        let (x, swap) = x?;
        let T::Atom(xa) = self.ar.terms[x as usize] else { return None };
        if !self.ar.atoms[xa as usize].root || self.ar.atoms[xa as usize].hi != Z::one() {
            return None;
        }
        // the path conditions other than the one on x must agree
        let logs = |ar: &Arena, st: &State| {
            let mut v = vec![];
            let mut l = st.log.clone();
            while let Some(n) = l {
                let tt = match n.c {
                    Cond::Ge0(t) | Cond::Eq0(t) => t,
                };
                let mut at = vec![];
                ar.atoms_of(tt, &mut at);
                if at != [xa] {
                    v.push((n.c, n.v));
                }
                l = n.prev.clone();
            }
            v
        };
        if logs(&self.ar, s) != logs(&self.ar, t) {
            return None;
        }
        let (s, t) = if swap { (t, s) } else { (s, t) };
        let mut out = s.clone();
        for i in 0..s.fr.len() {
            let mut l = Vec::with_capacity(s.fr[i].l.len());
            for k in 0..s.fr[i].l.len() {
                l.push(self.join_v(&s.fr[i].l[k], &t.fr[i].l[k], x)?);
            }
            Rc::make_mut(&mut out.fr[i]).l = l;
        }
        let mut list = vec![];
        let mut l = s.log.clone();
        while let Some(n) = l {
            list.push(n.clone());
            l = n.prev.clone();
        }
        let mut log = None;
        for n in list.into_iter().rev() {
            let tt = match n.c {
                Cond::Ge0(t) | Cond::Eq0(t) => t,
            };
            let mut at = vec![];
            self.ar.atoms_of(tt, &mut at);
            if at != [xa] {
                log = Some(Rc::new(Log { c: n.c, v: n.v, f: n.f, line: n.line, file: n.file.clone(), prev: log }));
            }
        }
        out.log = log;
        let mut sub = None;
        for (a, t) in sa.into_iter().rev() {
            if a != x {
                sub = Some(Rc::new(SubLog { a, t, prev: sub }));
            }
        }
        out.sub = sub;
        Some(out)
    }

    pub fn run(&mut self, entry: usize) {
        let t0 = Instant::now();
        let f = &self.ir.fns[entry];
        let l = vec![V::Undef; f.locals.len()];
        let st = State { fr: vec![Rc::new(Frame { f: entry, bb: 0, si: 0, l })], facts: Facts::default(), log: None, sub: None, steps: 0, stuck: 0, late: 0, fixed: Rc::new(vec![]), named: 0, joined: false, rw: Rc::new(vec![]), roots: Rc::new(vec![]) };
        let mut stack = vec![st];
        let mut tick = 0u64;
        let mut parked: Vec<State> = vec![];
        'outer: loop {
            if stack.is_empty() {
                if parked.is_empty() {
                    break;
                }
                stack = self.join_all(std::mem::take(&mut parked));
            }
            let mut st = stack.pop().unwrap();
            loop {
                tick += 1;
                if tick & 0xff == 0 && t0.elapsed() > Duration::from_secs_f64(self.bud.secs) {
                    self.res.incomplete = Some(format!("time budget ({} states left)", stack.len() + 1));
                    break 'outer;
                }
                if self.res.stats.values().map(|s| s.violated).sum::<u64>() >= 300 {
                    self.res.incomplete = Some("stopped after 300 verified violations".into());
                    break 'outer;
                }
                if self.res.paths >= self.bud.paths {
                    self.res.incomplete = Some("partition budget".into());
                    break 'outer;
                }
                self.ar.pending = None;
                crate::z::take_overflow();
                let r = self.step(&mut st);
                let r = if crate::z::take_overflow() {
                    self.ar.pending = None;
                    Err(E::Unsup("an integer of the specification is out of range".into()))
                } else {
                    r
                };
                if let Some(b) = self.ar.pending.take() {
                    if st.named < 200 {
                        st.named += 1;
                        if self.bud.verbose {
                            let (_, func, line) = self.at(st.fr.last().unwrap());
                            eprintln!("name at {}:{} {}", func, line, self.ar.show(b));
                        }
                        match self.name(&mut st, b) {
                            None => {
                                self.res.paths += 1;
                                break;
                            }
                            Some(true) if !matches!(r, Err(E::Done) | Err(E::Dead) | Err(E::Panic(_))) => continue,
                            _ => {}
                        }
                    }
                }
                let mut parts: Vec<Vec<(Cond, bool)>> = vec![];
                let r = match r {
                    Err(E::Panic(m)) => {
                        let id = format!("panic:{m}");
                        match self.obligation(&st, &id, false, None, m) {
                            Err(e) => Err(e),
                            Ok(()) => Err(E::Done),
                        }
                    }
                    r => r,
                };
                let r = match r {
                    Err(E::Late(t)) => {
                        st.late -= 1;
                        Err(E::SplitVal(t))
                    }
                    r => r,
                };
                match r {
                    Ok(()) => continue,
                    Err(E::Done) | Err(E::Dead) => {
                        self.res.paths += 1;
                        break;
                    }
                    Err(E::Park) => {
                        st.joined = true;
                        parked.push(st);
                        break;
                    }
                    Err(E::Panic(_)) | Err(E::Late(_)) => unreachable!(),
                    Err(E::Unsup(m)) => {
                        self.res.paths += 1;
                        let (file, func, line) = self.at(st.fr.last().unwrap());
                        let file = file.rsplit('/').next().unwrap_or("").to_string();
                        *self.res.unsup.entry(format!("{m} at {file}:{line} ({func})")).or_default() += 1;
                        break;
                    }
                    Err(E::Split(c)) => {
                        parts.push(vec![(c, false)]);
                        parts.push(vec![(c, true)]);
                    }
                    Err(E::SplitVal(t)) => {
                        let mut t = t;
                        // the low bits of a narrow value: the value itself
                        loop {
                            let (c, _, _) = self.ar.core(t);
                            let T::Slice(b, _, _) = self.ar.terms[c as usize] else { break };
                            let (l, h) = self.ar.range(&st.facts, b);
                            if h - l > Z::i(self.bud.split as i128) {
                                break;
                            }
                            t = b;
                        }
                        let (l, h) = self.ar.range(&st.facts, t);
                        let n = h - l;
                        st.stuck += n.is_zero() as u32;
                        if st.stuck > 500 {
                            self.res.paths += 1;
                            *self.res.unsup.entry(format!("no progress on {}", self.ar.show(t).chars().take(60).collect::<String>())).or_default() += 1;
                            break;
                        }
                        if n.is_neg() {
                            // the state has no members
                            self.res.paths += 1;
                            break;
                        }
                        if n > Z::i(self.bud.split as i128) {
                            self.res.paths += 1;
                            let (file, func, line) = self.at(st.fr.last().unwrap());
                            let file = file.rsplit('/').next().unwrap_or("").to_string();
                            let nm = self.ar.show(t);
                            let nm: String = nm.chars().take(60).collect();
                            *self.res.unsup.entry(format!("value split too wide [{}..{}] {} at {file}:{line} ({func})", l, h, nm)).or_default() += 1;
                            break;
                        }
                        let mut v = h;
                        loop {
                            let d = self.ar.addc(t, -v);
                            parts.push(vec![(Cond::Eq0(d), true)]);
                            if v == l {
                                break;
                            }
                            v = v - Z::one();
                        }
                    }
                    Err(E::SplitBits(t)) => {
                        let (l, h) = self.ar.range(&st.facts, t);
                        for n in (l.bitlen()..=h.bitlen()).rev() {
                            if n == 0 {
                                parts.push(vec![(Cond::Eq0(t), true)]);
                            } else {
                                let a = self.ar.addc(t, -Z::pow2(n - 1));
                                let b = self.ar.lin(Z::mask(n), vec![(Z::i(-1), t)]);
                                parts.push(vec![(Cond::Ge0(a), true), (Cond::Ge0(b), true)]);
                            }
                        }
                    }
                    Err(E::SplitTz(t, bits)) => {
                        // lowest undecided bit
                        for k in 0..bits {
                            let m = self.ar.mod2(&st.facts, t, k + 1);
                            if self.ar.decide(&st.facts, Cond::Eq0(m)).is_none() {
                                parts.push(vec![(Cond::Eq0(m), true)]);
                                parts.push(vec![(Cond::Eq0(m), false)]);
                                break;
                            }
                        }
                    }
                }
                if self.bud.verbose && parts.len() > 1 {
                    let (_, func, line) = self.at(st.fr.last().unwrap());
                    let t = match parts[0][0].0 {
                        Cond::Ge0(t) | Cond::Eq0(t) => t,
                    };
                    eprintln!("split {} at {}:{} on {}", parts.len(), func, line, self.ar.show(t));
                }
                let bit = parts.len() == 2 && st.fr.len() > 1 && self.is_root_bit(&parts[0]);
                let mut kids = vec![];
                for p in parts {
                    let mut s = st.clone();
                    if self.assume(&mut s, &p).is_some() {
                        kids.push(s);
                    }
                }
                if bit && kids.len() == 2 {
                    let d = st.fr.len();
                    let ok = kids.iter_mut().all(|k| self.run_to_return(k, d));
                    if ok {
                        if let Some(j) = self.join2(&kids[0], &kids[1]) {
                            self.res.joins += 1;
                            kids = vec![j];
                        }
                    }
                }
                stack.extend(kids);
                break;
            }
        }
        self.res.secs = t0.elapsed().as_secs_f64();
        let _ = &self.nofn;
    }
}
fn is_panic(n: &str) -> bool {
    n.contains("panicking::")
        || n.ends_with("rt::panic_fmt")
        || n.contains("unwrap_failed")
        || n.contains("expect_failed")
        || n.contains("_fail")
        || n.contains("from_ascii_bytes_radix_panic")
        || n.contains("begin_panic")
        || n.contains("handle_alloc_error")
        || n.contains("capacity_overflow")
}
