//! The numeric abstract domain: hash-consed integer terms (affine combinations of
//! bit-slices of input atoms), with interval facts per term.
use crate::z::Z;
use std::collections::HashMap;
use std::fmt::Write;
use std::rc::Rc;

pub type TermId = u32;
pub const INF: u32 = u32::MAX;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T {
    Const(Z),
    Atom(u32),
    /// c + sum(ci * ti), ti neither Const nor Lin
    Lin(Z, Vec<(Z, TermId)>),
    /// floor(base / 2^lo) mod 2^w   (w == INF: no mod)
    Slice(TermId, u32, u32),
    Prod(Vec<TermId>),
    And(TermId, TermId),
    Div(TermId, TermId),
    Rem(TermId, TermId),
    /// exclusive or of two 0/1 terms
    Xor1(TermId, TermId),
}

#[derive(Clone, Debug)]
pub struct AtomInfo {
    pub lo: Z,
    pub hi: Z,
    pub name: String,
    pub root: bool,
    pub havoc: bool,
    /// value in terms of older atoms
    pub def: Option<TermId>,
}

pub type Rng = (Z, Z);

#[derive(Clone, Default)]
pub struct Facts {
    pub r: Rc<HashMap<TermId, Rng>>,
    pub ne: Rc<Vec<(TermId, Z)>>,
    pub nlin: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cond {
    Ge0(TermId),
    Eq0(TermId),
}

pub struct Arena {
    pub terms: Vec<T>,
    map: HashMap<T, TermId>,
    pub atoms: Vec<AtomInfo>,
    /// a term whose bits were asked for but overlap: candidate for a name
    pub pending: Option<TermId>,
    depth: u32,
}

pub type Subst = Vec<(TermId, TermId)>;

impl Arena {
    pub fn new() -> Arena {
        Arena { terms: vec![], map: HashMap::new(), atoms: vec![], pending: None, depth: 0 }
    }
    pub fn intern(&mut self, t: T) -> TermId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.terms.len() as TermId;
        self.terms.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn konst(&mut self, z: Z) -> TermId {
        self.intern(T::Const(z))
    }
    pub fn ki(&mut self, v: i128) -> TermId {
        self.konst(Z::i(v))
    }
    pub fn as_const(&self, t: TermId) -> Option<Z> {
        match &self.terms[t as usize] {
            T::Const(z) => Some(*z),
            _ => None,
        }
    }
    pub fn new_atom(&mut self, lo: Z, hi: Z, name: String, root: bool, havoc: bool) -> TermId {
        let a = self.atoms.len() as u32;
        self.atoms.push(AtomInfo { lo, hi, name, root, havoc, def: None });
        self.intern(T::Atom(a))
    }
    /// the quotient whose name would make a division by a constant linear; a term to split on
    pub fn want_div(&mut self, f: &Facts, b: TermId, r: TermId) -> Option<TermId> {
        let y = self.as_const(b)?;
        let (_, ts) = self.as_lin(r);
        let d = ts.iter().map(|x| x.1).find(|&x| matches!(self.terms[x as usize], T::Div(_, z) | T::Rem(_, z) if z == b))?;
        let (T::Div(a, _) | T::Rem(a, _)) = self.terms[d as usize] else { return None };
        if self.range(f, a).0.is_neg() {
            return None;
        }
        // a = g*core + off
        let (core, g, _) = self.core(a);
        let (l, h) = self.range(f, core);
        let n = y.divrem(Z::gcd(g, y)).0;
        if h - l < n {
            return (h - l < Z::i(16)).then_some(core);
        }
        if !l.is_neg() {
            let n = self.konst(n);
            self.pending = Some(self.intern(T::Div(core, n)));
        }
        None
    }
    pub fn define(&mut self, atom: TermId, d: TermId) {
        if let T::Atom(a) = self.terms[atom as usize] {
            self.atoms[a as usize].def = Some(d);
        }
    }
    /// the overlapping cluster of `t` that decides bits below (mod) or above (div) 2^k
    fn want(&mut self, f: &Facts, t: TermId, k: u32) {
        let (c, ts) = self.as_lin(t);
        let ts: Vec<_> = ts.into_iter().filter(|x| x.0.tz() < k).collect();
        let b = self.lin(c, ts);
        let b = self.strip_low(f, b, k);
        let (_, ts) = self.as_lin(b);
        if matches!(self.terms[b as usize], T::Atom(_) | T::Const(_)) || (ts.len() == 1 && matches!(self.terms[ts[0].1 as usize], T::Atom(_)) && ts[0].0.is_neg()) {
            return;
        }
        if self.range(f, b).0.is_neg() {
            return;
        }
        self.pending = Some(b);
    }
    /// drop low windows that do not interact with the rest
    pub fn strip_low(&mut self, f: &Facts, t: TermId, k: u32) -> TermId {
        let mut t = t;
        let mut k = k;
        for _ in 0..64 {
            let (c, ts) = self.as_lin(t);
            let g = ts.iter().map(|x| x.0.tz()).min().unwrap_or(0);
            if g > 0 && g < k {
                let v: Vec<_> = ts.iter().map(|x| (x.0.shr(g), x.1)).collect();
                t = self.lin(c.shr(g), v);
                k -= g;
                continue;
            }
            match self.reduce_low(f, t, k) {
                Some((j, r1, _)) => {
                    t = r1;
                    k -= j;
                }
                None => break,
            }
        }
        t
    }
    pub fn atom_term(&mut self, a: u32) -> TermId {
        self.intern(T::Atom(a))
    }
    pub fn as_lin(&self, t: TermId) -> (Z, Vec<(Z, TermId)>) {
        match &self.terms[t as usize] {
            T::Const(z) => (*z, vec![]),
            T::Lin(c, v) => (*c, v.clone()),
            _ => (Z::ZERO, vec![(Z::one(), t)]),
        }
    }

    // ---------- construction ----------
    pub fn lin(&mut self, mut c: Z, ts: Vec<(Z, TermId)>) -> TermId {
        let mut v: Vec<(Z, TermId)> = Vec::with_capacity(ts.len());
        for (k, t) in ts {
            if k.is_zero() {
                continue;
            }
            match &self.terms[t as usize] {
                T::Const(z) => c = c + k * *z,
                T::Lin(c2, v2) => {
                    c = c + k * *c2;
                    for (k2, t2) in v2 {
                        v.push((k * *k2, *t2));
                    }
                }
                _ => v.push((k, t)),
            }
        }
        v.sort_by_key(|x| x.1);
        let mut o: Vec<(Z, TermId)> = Vec::with_capacity(v.len());
        for (k, t) in v {
            if let Some(l) = o.last_mut() {
                if l.1 == t {
                    l.0 = l.0 + k;
                    continue;
                }
            }
            o.push((k, t));
        }
        o.retain(|x| !x.0.is_zero());
        // merge slices of a common base
        let has_slice = o.iter().any(|x| matches!(self.terms[x.1 as usize], T::Slice(..)));
        if has_slice {
            let base = |s: &Self, t: TermId| match s.terms[t as usize] {
                T::Slice(b, lo, w) => (b, lo, w),
                _ => (t, 0, INF),
            };
            let mut groups: Vec<(TermId, Vec<(u32, u32, Z)>)> = vec![];
            for (k, t) in &o {
                let (b, lo, w) = base(self, *t);
                let end = if w == INF { INF } else { lo + w };
                match groups.iter_mut().find(|g| g.0 == b) {
                    Some(g) => g.1.push((lo, end, *k)),
                    None => groups.push((b, vec![(lo, end, *k)])),
                }
            }
            // a Lin base may be present in expanded form: only merge when slices cover it
            let mut changed = false;
            let mut out: Vec<(Z, TermId)> = vec![];
            for (b, ps) in groups {
                if ps.len() == 1 {
                    let (lo, end, k) = ps[0];
                    let t = if lo == 0 && end == INF { b } else { self.slice_raw(b, lo, if end == INF { INF } else { end - lo }) };
                    out.push((k, t));
                    continue;
                }
                let mut cuts: Vec<u32> = ps.iter().flat_map(|p| [p.0, p.1]).collect();
                cuts.sort();
                cuts.dedup();
                let mut pieces: Vec<(u32, u32, Z)> = vec![];
                for w in cuts.windows(2) {
                    let (a, e) = (w[0], w[1]);
                    let mut k = Z::ZERO;
                    for p in &ps {
                        if p.0 <= a && e <= p.1 {
                            k = k + p.2.shl(a - p.0);
                        }
                    }
                    if k.is_zero() {
                        continue;
                    }
                    if let Some(l) = pieces.last_mut() {
                        if l.1 == a && k == l.2.shl(a - l.0) {
                            l.1 = e;
                            continue;
                        }
                    }
                    pieces.push((a, e, k));
                }
                for (a, e, k) in pieces {
                    if a == 0 && e == INF {
                        if matches!(self.terms[b as usize], T::Lin(..)) {
                            changed = true;
                        }
                        out.push((k, b));
                    } else {
                        let t = self.slice_raw(b, a, if e == INF { INF } else { e - a });
                        out.push((k, t));
                    }
                }
            }
            if changed {
                return self.lin(c, out);
            }
            out.retain(|x| !x.0.is_zero());
            out.sort_by_key(|x| x.1);
            o = out;
        }
        if o.is_empty() {
            return self.konst(c);
        }
        if o.len() == 1 && c.is_zero() && o[0].0.is_one() {
            return o[0].1;
        }
        self.intern(T::Lin(c, o))
    }
    pub fn add(&mut self, a: TermId, b: TermId) -> TermId {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(x + y);
        }
        self.lin(Z::ZERO, vec![(Z::one(), a), (Z::one(), b)])
    }
    pub fn sub(&mut self, a: TermId, b: TermId) -> TermId {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(x - y);
        }
        self.lin(Z::ZERO, vec![(Z::one(), a), (Z::i(-1), b)])
    }
    pub fn addc(&mut self, a: TermId, c: Z) -> TermId {
        self.lin(c, vec![(Z::one(), a)])
    }
    pub fn scale(&mut self, a: TermId, k: Z) -> TermId {
        self.lin(Z::ZERO, vec![(k, a)])
    }
    pub fn mul(&mut self, a: TermId, b: TermId) -> TermId {
        if let Some(k) = self.as_const(a) {
            return self.scale(b, k);
        }
        if let Some(k) = self.as_const(b) {
            return self.scale(a, k);
        }
        let (c1, t1) = self.as_lin(a);
        let (c2, t2) = self.as_lin(b);
        let mut out = vec![];
        for (k, t) in &t1 {
            out.push((*k * c2, *t));
        }
        for (k, t) in &t2 {
            out.push((*k * c1, *t));
        }
        for (k, t) in &t1 {
            for (k2, u) in &t2 {
                let mut f = self.factors(*t);
                f.extend(self.factors(*u));
                f.sort();
                let p = self.intern(T::Prod(f));
                out.push((*k * *k2, p));
            }
        }
        self.lin(c1 * c2, out)
    }
    fn factors(&self, t: TermId) -> Vec<TermId> {
        match &self.terms[t as usize] {
            T::Prod(v) => v.clone(),
            _ => vec![t],
        }
    }
    fn slice_raw(&mut self, b: TermId, lo: u32, w: u32) -> TermId {
        match self.terms[b as usize].clone() {
            T::Const(z) => {
                let s = z.shr(lo);
                let s = if w == INF { s } else { s.modp2(w) };
                self.konst(s)
            }
            T::Slice(b2, lo2, w2) => {
                let nw = if w2 == INF {
                    w
                } else if lo >= w2 {
                    return self.ki(0);
                } else if w == INF || w >= w2 - lo {
                    w2 - lo
                } else {
                    w
                };
                self.slice_raw(b2, lo + lo2, nw)
            }
            T::Atom(a) if !self.atoms[a as usize].lo.is_neg() => {
                let width = self.atoms[a as usize].hi.bitlen();
                if lo >= width {
                    return self.ki(0);
                }
                let w = if w == INF || lo + w >= width { INF } else { w };
                if w == INF && lo == 0 {
                    return b;
                }
                if w == 0 {
                    return self.ki(0);
                }
                self.intern(T::Slice(b, lo, w))
            }
            _ => {
                if w == INF && lo == 0 {
                    return b;
                }
                if w == 0 {
                    return self.ki(0);
                }
                self.intern(T::Slice(b, lo, w))
            }
        }
    }
    /// slice of a primitive (non-Lin) term, using interval facts
    fn slice_prim(&mut self, f: &Facts, t: TermId, lo: u32, w: u32) -> TermId {
        let (a, b) = self.range(f, t);
        let (x, y) = (a.shr(lo), b.shr(lo));
        if w == INF {
            if x == y {
                return self.konst(x);
            }
        } else if x.shr(w) == y.shr(w) {
            if x == y {
                return self.konst(x.modp2(w));
            }
            // no wrap: mod is a constant offset
            let q = x.shr(w);
            let d = self.slice_raw(t, lo, INF);
            return self.addc(d, -(q.shl(w)));
        }
        self.slice_raw(t, lo, w)
    }
    /// split t = 2^k * D + R; returns (D, R) with R's terms reduced below 2^k
    fn split_at(&mut self, f: &Facts, t: TermId, k: u32) -> (TermId, TermId) {
        let (c, ts) = self.as_lin(t);
        let mut d = vec![];
        let mut r = vec![];
        let dc = c.shr(k);
        let rc = c.modp2(k);
        for (ci, ti) in ts {
            let v = ci.tz();
            if v >= k {
                d.push((ci.shr(k), ti));
            } else {
                let m = k - v;
                let hi = self.slice_prim(f, ti, m, INF);
                if self.as_const(hi) == Some(Z::ZERO) {
                    r.push((ci, ti));
                } else {
                    d.push((ci.shr(v), hi));
                    let lo = self.lin(Z::ZERO, vec![(Z::one(), ti), (-Z::pow2(m), hi)]);
                    r.push((ci, lo));
                }
            }
        }
        let d = self.lin(dc, d);
        let r = self.lin(rc, r);
        (d, r)
    }
    /// find the largest j in (0,k) such that R = 2^j*R1 + R0 with R0 in one window
    fn reduce_low(&mut self, f: &Facts, r: TermId, k: u32) -> Option<(u32, TermId, TermId)> {
        let (c, ts) = self.as_lin(r);
        let mut vals: Vec<u32> = ts.iter().map(|x| x.0.tz()).filter(|&v| v > 0 && v < k).collect();
        vals.sort();
        vals.dedup();
        for &j in vals.iter().rev() {
            let low: Vec<_> = ts.iter().filter(|x| x.0.tz() < j).cloned().collect();
            let lt = self.lin(c.modp2(j), low);
            let (a, b) = self.range(f, lt);
            if a.shr(j) == b.shr(j) {
                let m = a.shr(j);
                let r0 = self.addc(lt, -(m.shl(j)));
                let hi: Vec<_> = ts.iter().filter(|x| x.0.tz() >= j).map(|x| (x.0.shr(j), x.1)).collect();
                let r1 = self.lin(c.shr(j) + m, hi);
                return Some((j, r1, r0));
            }
        }
        None
    }
    /// R = rest + floor(B / 2^j)  =>  (2^j*rest + B, j)
    fn absorb(&mut self, r: TermId) -> Option<(TermId, u32)> {
        let (c, ts) = self.as_lin(r);
        for (i, (k, t)) in ts.iter().enumerate() {
            if !k.is_one() {
                continue;
            }
            if let T::Slice(b, j, INF) = self.terms[*t as usize] {
                if matches!(self.terms[b as usize], T::Lin(..)) {
                    let mut v: Vec<_> = ts.iter().enumerate().filter(|x| x.0 != i).map(|x| (x.1 .0.shl(j), x.1 .1)).collect();
                    v.push((Z::one(), b));
                    return Some((self.lin(c.shl(j), v), j));
                }
            }
        }
        None
    }
    pub fn div2(&mut self, f: &Facts, t: TermId, k: u32) -> TermId {
        if k == 0 {
            return t;
        }
        if let Some(z) = self.as_const(t) {
            return self.konst(z.shr(k));
        }
        let (d0, r0) = self.split_mult(t, k);
        if let Some(z) = self.as_const(r0) {
            return self.addc(d0, z.shr(k));
        }
        if let Some((j, r1, _)) = self.reduce_low(f, r0, k) {
            let q = self.div2(f, r1, k - j);
            return self.add(d0, q);
        }
        let (d, r) = self.split_at(f, r0, k);
        let (a, b) = self.range(f, r);
        if a.shr(k) == b.shr(k) {
            let d = self.add(d, d0);
            return self.addc(d, a.shr(k));
        }
        if let Some((x, j)) = self.absorb(r0) {
            let q = self.div2(f, x, k + j);
            return self.add(d0, q);
        }
        self.want(f, t, k);
        let q = self.slice_raw(r0, k, INF);
        self.add(d0, q)
    }
    /// t = 2^k * D + R without touching any term; R's constant is below 2^k
    fn split_mult(&mut self, t: TermId, k: u32) -> (TermId, TermId) {
        let (c, ts) = self.as_lin(t);
        let (mut d, mut r) = (vec![], vec![]);
        for (ci, ti) in ts {
            if ci.tz() >= k {
                d.push((ci.shr(k), ti));
            } else {
                r.push((ci, ti));
            }
        }
        (self.lin(c.shr(k), d), self.lin(c.modp2(k), r))
    }
    pub fn mod2(&mut self, f: &Facts, t: TermId, k: u32) -> TermId {
        if k == 0 {
            return self.ki(0);
        }
        if let Some(z) = self.as_const(t) {
            return self.konst(z.modp2(k));
        }
        // inner reductions modulo a multiple of 2^k do not matter
        let (c, ts) = self.as_lin(t);
        let mut ex = false;
        let v: Vec<_> = ts
            .iter()
            .map(|(ci, ti)| match self.terms[*ti as usize] {
                T::Slice(b, 0, w) if w != INF && ci.tz() + w >= k && !matches!(self.terms[b as usize], T::Atom(_)) => {
                    ex = true;
                    (*ci, b)
                }
                _ => (*ci, *ti),
            })
            .collect();
        if ex && self.depth < 6 {
            let t2 = self.lin(c, v);
            if t2 != t {
                self.depth += 1;
                let r = self.mod2(f, t2, k);
                self.depth -= 1;
                return r;
            }
        }
        let (_, r0) = self.split_mult(t, k);
        if let Some((j, r1, low)) = self.reduce_low(f, r0, k) {
            let q = self.mod2(f, r1, k - j);
            return self.lin(Z::ZERO, vec![(Z::pow2(j), q), (Z::one(), low)]);
        }
        let (_, r) = self.split_at(f, r0, k);
        let (a, b) = self.range(f, r);
        if a.shr(k) == b.shr(k) {
            return self.addc(r, -(a.shr(k).shl(k)));
        }
        if let Some((x, j)) = self.absorb(r0) {
            let (_, xr) = self.split_mult(x, k + j);
            self.want(f, t, k);
            return self.slice_raw(xr, j, k);
        }
        self.want(f, t, k);
        self.slice_raw(r0, 0, k)
    }
    pub fn extract(&mut self, f: &Facts, t: TermId, lo: u32, w: u32) -> TermId {
        let d = self.div2(f, t, lo);
        self.mod2(f, d, w)
    }
    /// mask of possibly-one bits of a non-negative term
    pub fn ones(&mut self, f: &Facts, t: TermId) -> Option<Z> {
        let (lo, hi) = self.range(f, t);
        if lo.is_neg() {
            return None;
        }
        if lo == hi {
            return Some(lo);
        }
        // common prefix of lo and hi is fixed only by range: use bit length, plus structure
        let full = Z::mask(hi.bitlen());
        match self.terms[t as usize].clone() {
            T::Lin(c, ts) => {
                if c.is_neg() || ts.iter().any(|x| x.0.is_neg()) {
                    let tz = ts.iter().map(|x| x.0.tz()).min().unwrap_or(0).min(c.tz());
                    return Some(full.shr(tz).shl(tz));
                }
                let mut acc = c;
                let mut okd = true;
                for (k, ti) in &ts {
                    let v = k.tz();
                    let o = match self.ones(f, *ti) {
                        Some(o) => o,
                        None => {
                            okd = false;
                            break;
                        }
                    };
                    let m = if k.shr(v).is_one() { o.shl(v) } else { Z::mask((o * k.shr(v)).bitlen()).shl(v) };
                    if !acc.and(m).is_zero() {
                        okd = false;
                        break;
                    }
                    acc = acc.or(m);
                }
                if okd {
                    return Some(acc.and(full));
                }
                let tz = ts.iter().map(|x| x.0.tz()).min().unwrap_or(0).min(c.tz());
                Some(full.shr(tz).shl(tz))
            }
            T::And(a, b) => {
                let (x, y) = (self.ones(f, a), self.ones(f, b));
                match (x, y) {
                    (Some(x), Some(y)) => Some(x.and(y).and(full)),
                    (Some(x), None) | (None, Some(x)) => Some(x.and(full)),
                    _ => Some(full),
                }
            }
            _ => Some(full),
        }
    }
    fn and_const(&mut self, f: &Facts, t: TermId, m: Z) -> TermId {
        if m.is_neg() {
            let n = self.and_const(f, t, m.not());
            return self.sub(t, n);
        }
        let mut out = vec![];
        let mut i = 0;
        let n = m.bitlen();
        while i < n {
            if !m.bit(i) {
                i += 1;
                continue;
            }
            let a = i;
            while i < n && m.bit(i) {
                i += 1;
            }
            let s = self.extract(f, t, a, i - a);
            out.push((Z::pow2(a), s));
        }
        self.lin(Z::ZERO, out)
    }
    pub fn and(&mut self, f: &Facts, a: TermId, b: TermId) -> Result<TermId, TermId> {
        if a == b {
            return Ok(a);
        }
        if let Some(m) = self.as_const(b) {
            return Ok(self.and_const(f, a, m));
        }
        if let Some(m) = self.as_const(a) {
            return Ok(self.and_const(f, b, m));
        }
        if let (Some(x), Some(y)) = (self.ones(f, a), self.ones(f, b)) {
            if x.and(y).is_zero() {
                return Ok(self.ki(0));
            }
        }
        // a tiny atom in either operand: ask for a split
        for t in [b, a] {
            let (_, ts) = self.as_lin(t);
            for (_, x) in ts {
                let (lo, hi) = self.range(f, x);
                if hi - lo == Z::one() {
                    return Err(x);
                }
            }
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        Ok(self.intern(T::And(x, y)))
    }
    pub fn or(&mut self, f: &Facts, a: TermId, b: TermId) -> Result<TermId, TermId> {
        let n = self.and(f, a, b)?;
        Ok(self.lin(Z::ZERO, vec![(Z::one(), a), (Z::one(), b), (Z::i(-1), n)]))
    }
    pub fn xor(&mut self, f: &Facts, a: TermId, b: TermId) -> Result<TermId, TermId> {
        let n = self.and(f, a, b)?;
        Ok(self.lin(Z::ZERO, vec![(Z::one(), a), (Z::one(), b), (Z::i(-2), n)]))
    }
    /// exclusive or of two terms in 0..=1
    pub fn xor1(&mut self, a: TermId, b: TermId) -> TermId {
        // strip complements: 1 - t
        let mut neg = false;
        let mut op = [a, b];
        for x in op.iter_mut() {
            if let T::Lin(c, ts) = &self.terms[*x as usize] {
                if c.is_one() && ts.len() == 1 && ts[0].0 == Z::i(-1) {
                    *x = ts[0].1;
                    neg = !neg;
                }
            }
        }
        op.sort();
        let [a, b] = op;
        let flip = |s: &mut Self, t: TermId, n: bool| if n { s.lin(Z::one(), vec![(Z::i(-1), t)]) } else { t };
        for (x, y) in [(a, b), (b, a)] {
            if let Some(z) = self.as_const(x) {
                return flip(self, y, neg != !z.is_zero());
            }
        }
        if a == b {
            return self.ki(neg as i128);
        }
        // (p ^ q) ^ q
        for (x, y) in [(a, b), (b, a)] {
            if let T::Xor1(p, q) = self.terms[x as usize] {
                if p == y {
                    return flip(self, q, neg);
                }
                if q == y {
                    return flip(self, p, neg);
                }
            }
        }
        let t = self.intern(T::Xor1(a, b));
        flip(self, t, neg)
    }
    /// division of non-negative terms
    pub fn div(&mut self, f: &Facts, a: TermId, b: TermId) -> TermId {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(x.divrem(y).0);
        }
        if let Some(y) = self.as_const(b) {
            if y == Z::pow2(y.tz()) {
                return self.div2(f, a, y.tz());
            }
        }
        let (alo, ahi) = self.range(f, a);
        let (blo, bhi) = self.range(f, b);
        if let (Some(y), false) = (self.as_const(b), alo.is_neg()) {
            // (y*x + r) / y where 0 <= r < y
            let (c, ts) = self.as_lin(a);
            let (m, r): (Vec<_>, Vec<_>) = ts.into_iter().partition(|x| x.0.abs().divrem(y).1.is_zero());
            if !m.is_empty() {
                let q = c.abs().divrem(y).0;
                let c0 = if c.is_neg() { -(q + Z::one()) } else { q };
                let r = self.lin(c - c0 * y, r);
                let (rl, _) = self.range(f, r);
                if !rl.is_neg() {
                    let x = self.lin(c0, m.into_iter().map(|(k, x)| (divexact(k, y), x)).collect());
                    let d = self.div(f, r, b);
                    return self.add(x, d);
                }
            }
        }
        if !blo.is_zero() && !alo.is_neg() {
            let (l, h) = (alo.divrem(bhi).0, ahi.divrem(blo).0);
            if l == h {
                return self.konst(l);
            }
        }
        self.intern(T::Div(a, b))
    }
    pub fn rem(&mut self, f: &Facts, a: TermId, b: TermId) -> TermId {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(x.divrem(y).1);
        }
        if let Some(y) = self.as_const(b) {
            if y == Z::pow2(y.tz()) {
                return self.mod2(f, a, y.tz());
            }
        }
        if let (Some(y), false) = (self.as_const(b), self.range(f, a).0.is_neg()) {
            // (y*x + r) % y where r >= 0
            let (c, ts) = self.as_lin(a);
            let n = ts.len();
            let r: Vec<_> = ts.into_iter().filter(|x| !x.0.abs().divrem(y).1.is_zero()).collect();
            if r.len() < n && !c.is_neg() {
                let r = self.lin(c.divrem(y).1, r);
                if !self.range(f, r).0.is_neg() {
                    return self.rem(f, r, b);
                }
            }
        }
        let q = self.div(f, a, b);
        if self.as_const(q).is_some() {
            let p = self.mul(q, b);
            return self.sub(a, p);
        }
        self.intern(T::Rem(a, b))
    }

    // ---------- ranges ----------
    fn fact(&self, f: &Facts, t: TermId, r: Rng) -> Rng {
        match f.r.get(&t) {
            Some(&(a, b)) => (r.0.max(a), r.1.min(b)),
            None => r,
        }
    }
    /// t = scale * core + off
    pub fn core(&mut self, t: TermId) -> (TermId, Z, Z) {
        match self.terms[t as usize].clone() {
            T::Lin(c, ts) => {
                let mut g = Z::ZERO;
                for (k, _) in &ts {
                    g = if g.is_zero() { k.abs() } else if g.is_one() { g } else { Z::gcd(g, *k) };
                }
                if ts[0].0.is_neg() {
                    g = -g;
                }
                if ts.len() == 1 {
                    return (ts[0].1, ts[0].0, c);
                }
                let core: Vec<_> = if g.is_one() { ts } else { ts.iter().map(|x| (divexact(x.0, g), x.1)).collect() };
                (self.intern(T::Lin(Z::ZERO, core)), g, c)
            }
            _ => (t, Z::one(), Z::ZERO),
        }
    }
    fn core_lookup(&self, ts: &[(Z, TermId)]) -> Option<(TermId, Z)> {
        let mut g = Z::ZERO;
        for (k, _) in ts {
            g = if g.is_zero() { k.abs() } else if g.is_one() { g } else { Z::gcd(g, *k) };
        }
        if ts[0].0.is_neg() {
            g = -g;
        }
        let core: Vec<_> = if g.is_one() { ts.to_vec() } else { ts.iter().map(|x| (divexact(x.0, g), x.1)).collect() };
        self.map.get(&T::Lin(Z::ZERO, core)).map(|&i| (i, g))
    }
    pub fn range(&self, f: &Facts, t: TermId) -> Rng {
        match &self.terms[t as usize] {
            T::Const(z) => (*z, *z),
            T::Atom(a) => {
                let i = &self.atoms[*a as usize];
                self.fact(f, t, (i.lo, i.hi))
            }
            T::Lin(c, ts) => {
                let (mut lo, mut hi) = (*c, *c);
                for (k, x) in ts {
                    let (a, b) = self.range(f, *x);
                    if k.is_neg() {
                        lo = lo + *k * b;
                        hi = hi + *k * a;
                    } else {
                        lo = lo + *k * a;
                        hi = hi + *k * b;
                    }
                }
                if f.nlin > 0 && ts.len() > 1 {
                    if let Some((core, g)) = self.core_lookup(ts) {
                        if let Some(&(a, b)) = f.r.get(&core) {
                            let (a, b) = if g.is_neg() { (*c + g * b, *c + g * a) } else { (*c + g * a, *c + g * b) };
                            lo = lo.max(a);
                            hi = hi.min(b);
                        }
                    }
                }
                (lo, hi)
            }
            T::Slice(b, lo, w) => {
                let (x, y) = self.range(f, *b);
                let (x, y) = (x.shr(*lo), y.shr(*lo));
                let r = if *w == INF {
                    (x, y)
                } else if x.shr(*w) == y.shr(*w) {
                    (x.modp2(*w), y.modp2(*w))
                } else {
                    (Z::ZERO, Z::mask(*w))
                };
                self.fact(f, t, r)
            }
            T::Prod(v) => {
                let mut r = (Z::one(), Z::one());
                for x in v {
                    let (a, b) = self.range(f, *x);
                    let c = [r.0 * a, r.0 * b, r.1 * a, r.1 * b];
                    r = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                }
                self.fact(f, t, r)
            }
            T::And(a, b) => {
                let (x, y) = (self.range(f, *a), self.range(f, *b));
                let h = if x.0.is_neg() {
                    y.1
                } else if y.0.is_neg() {
                    x.1
                } else {
                    x.1.min(y.1)
                };
                self.fact(f, t, (Z::ZERO, h))
            }
            T::Xor1(..) => self.fact(f, t, (Z::ZERO, Z::one())),
            T::Div(a, b) => {
                let (x, y) = (self.range(f, *a), self.range(f, *b));
                let d = if y.0.is_zero() { Z::one() } else { y.0 };
                self.fact(f, t, (Z::ZERO, x.1.divrem(d).0))
            }
            T::Rem(a, b) => {
                let (x, y) = (self.range(f, *a), self.range(f, *b));
                self.fact(f, t, (Z::ZERO, x.1.min(y.1 - Z::one())))
            }
        }
    }

    /// range of c + sum k_i x_i, also using the facts about other sums (up to `depth` of them)
    fn range_rel(&self, f: &Facts, c: Z, ts: &[(Z, TermId)], depth: u32) -> Rng {
        let (mut lo, mut hi) = (c, c);
        for (k, x) in ts {
            let (a, b) = self.range(f, *x);
            if k.is_neg() {
                lo = lo + *k * b;
                hi = hi + *k * a;
            } else {
                lo = lo + *k * a;
                hi = hi + *k * b;
            }
        }
        if depth == 0 || ts.len() < 2 {
            return (lo, hi);
        }
        for (u, r) in f.r.iter() {
            let T::Lin(_, us) = &self.terms[*u as usize] else { continue };
            if us.len() < 2 {
                continue;
            }
            let mut tried: [Option<Z>; 2] = [None, None];
            for (ku, x) in us {
                let Some((kt, _)) = ts.iter().find(|y| y.1 == *x) else { continue };
                let (m, rem) = kt.abs().divrem(ku.abs());
                if !rem.is_zero() {
                    continue;
                }
                let m = if kt.is_neg() == ku.is_neg() { m } else { -m };
                if tried.contains(&Some(m)) {
                    continue;
                }
                tried[if tried[0].is_none() { 0 } else { 1 }] = Some(m);
                let mut rest: Vec<(Z, TermId)> = vec![];
                for (k, y) in ts {
                    let k2 = match us.iter().find(|z| z.1 == *y) {
                        Some((q, _)) => *k - m * *q,
                        None => *k,
                    };
                    if !k2.is_zero() {
                        rest.push((k2, *y));
                    }
                }
                for (q, y) in us {
                    if !ts.iter().any(|z| z.1 == *y) {
                        rest.push((-(m * *q), *y));
                    }
                }
                if rest.len() > ts.len() {
                    continue;
                }
                let (a, b) = self.range_rel(f, c, &rest, depth - 1);
                let (p, q) = if m.is_neg() { (m * r.1, m * r.0) } else { (m * r.0, m * r.1) };
                lo = lo.max(a + p);
                hi = hi.min(b + q);
            }
        }
        (lo, hi)
    }
    // ---------- decisions ----------
    pub fn decide(&mut self, f: &Facts, c: Cond) -> Option<bool> {
        match c {
            Cond::Ge0(t) => {
                let (lo, hi) = self.range(f, t);
                if !lo.is_neg() {
                    Some(true)
                } else if hi.is_neg() {
                    Some(false)
                } else if f.nlin > 0 {
                    let T::Lin(c, ts) = &self.terms[t as usize] else { return None };
                    let (lo, hi) = self.range_rel(f, *c, ts, 3);
                    if !lo.is_neg() {
                        Some(true)
                    } else if hi.is_neg() {
                        Some(false)
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Cond::Eq0(t) => {
                let (lo, hi) = self.range(f, t);
                if lo.is_zero() && hi.is_zero() {
                    return Some(true);
                }
                if hi.is_neg() || lo > Z::ZERO {
                    return Some(false);
                }
                let (core, g, off) = self.core(t);
                // g*core + off == 0
                let r = off.abs().divrem(g.abs());
                if !r.1.is_zero() {
                    return Some(false);
                }
                let v = if off.is_neg() == g.is_neg() { -r.0 } else { r.0 };
                if f.ne.iter().any(|x| x.0 == core && x.1 == v) {
                    return Some(false);
                }
                if f.nlin > 0 {
                    if let T::Lin(c, ts) = &self.terms[t as usize] {
                        // t >= 1 or t <= -1 from the relations between its parts
                        let (lo, hi) = self.range_rel(f, *c - Z::one(), ts, 3);
                        if !lo.is_neg() || (hi + Z::one()).is_neg() {
                            return Some(false);
                        }
                        let (_, hi) = self.range_rel(f, *c, ts, 3);
                        if hi.is_neg() {
                            return Some(false);
                        }
                    }
                }
                match self.split_mod(f, t) {
                    Err(()) => return Some(false),
                    Ok(Some((h, l))) => {
                        if self.decide(f, Cond::Eq0(h)) == Some(false) || self.decide(f, Cond::Eq0(l)) == Some(false) {
                            return Some(false);
                        }
                    }
                    Ok(None) => {}
                }
                // digit reasoning
                if let Some(ds) = self.digits(f, core, v) {
                    match ds {
                        Err(()) => return Some(false),
                        Ok(list) => {
                            for (x, d) in list {
                                let (a, b) = self.range(f, x);
                                if d < a || d > b || f.ne.iter().any(|n| n.0 == x && n.1 == d) {
                                    return Some(false);
                                }
                            }
                        }
                    }
                }
                None
            }
        }
    }
    /// core == v where core is a sum of disjoint bit windows: the digit of each term
    fn digits(&mut self, f: &Facts, core: TermId, v: Z) -> Option<Result<Vec<(TermId, Z)>, ()>> {
        let ts = match &self.terms[core as usize] {
            T::Lin(c, ts) if c.is_zero() => ts.clone(),
            _ => return None,
        };
        let mut acc = Z::ZERO;
        let mut ms = vec![];
        for (k, t) in &ts {
            if k.is_neg() || *k != Z::pow2(k.tz()) {
                return None;
            }
            let (lo, hi) = self.range(f, *t);
            if lo.is_neg() {
                return None;
            }
            let m = Z::mask(hi.bitlen()).shl(k.tz());
            if !acc.and(m).is_zero() {
                return None;
            }
            acc = acc.or(m);
            ms.push((*t, m, k.tz()));
        }
        if v.is_neg() || !v.and(acc.not()).is_zero() {
            return Some(Err(()));
        }
        Some(Ok(ms.iter().map(|(t, m, s)| (*t, v.and(*m).shr(*s))).collect()))
    }

    // ---------- substitution ----------
    pub fn subst(&mut self, f: &Facts, t: TermId, a: TermId, by: TermId, memo: &mut HashMap<TermId, TermId>) -> TermId {
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        if t == a {
            return by;
        }
        let r = match self.terms[t as usize].clone() {
            T::Const(_) | T::Atom(_) => t,
            T::Lin(c, ts) => {
                let mut ch = false;
                let v: Vec<_> = ts
                    .iter()
                    .map(|(k, x)| {
                        let y = self.subst(f, *x, a, by, memo);
                        ch |= y != *x;
                        (*k, y)
                    })
                    .collect();
                if ch {
                    self.lin(c, v)
                } else {
                    t
                }
            }
            T::Slice(b, lo, w) => {
                let nb = self.subst(f, b, a, by, memo);
                if nb == b {
                    t
                } else {
                    let d = self.div2(f, nb, lo);
                    if w == INF {
                        d
                    } else {
                        self.mod2(f, d, w)
                    }
                }
            }
            T::Prod(v) => {
                let n: Vec<_> = v.iter().map(|x| self.subst(f, *x, a, by, memo)).collect();
                if n == v {
                    t
                } else {
                    let mut p = self.ki(1);
                    for x in n {
                        p = self.mul(p, x);
                    }
                    p
                }
            }
            T::And(x, y) => {
                let (nx, ny) = (self.subst(f, x, a, by, memo), self.subst(f, y, a, by, memo));
                if (nx, ny) == (x, y) {
                    t
                } else {
                    match self.and(f, nx, ny) {
                        Ok(r) => r,
                        Err(_) => {
                            let (p, q) = if nx < ny { (nx, ny) } else { (ny, nx) };
                            self.intern(T::And(p, q))
                        }
                    }
                }
            }
            T::Xor1(x, y) => {
                let (nx, ny) = (self.subst(f, x, a, by, memo), self.subst(f, y, a, by, memo));
                self.xor1(nx, ny)
            }
            T::Div(x, y) => {
                let (nx, ny) = (self.subst(f, x, a, by, memo), self.subst(f, y, a, by, memo));
                if (nx, ny) == (x, y) {
                    t
                } else {
                    self.div(f, nx, ny)
                }
            }
            T::Rem(x, y) => {
                let (nx, ny) = (self.subst(f, x, a, by, memo), self.subst(f, y, a, by, memo));
                if (nx, ny) == (x, y) {
                    t
                } else {
                    self.rem(f, nx, ny)
                }
            }
        };
        memo.insert(t, r);
        r
    }
    /// rebuild a term under the current facts (no substitution)
    pub fn renorm(&mut self, f: &Facts, t: TermId) -> TermId {
        let mut memo = HashMap::new();
        self.renorm_m(f, t, &mut memo)
    }
    fn renorm_m(&mut self, f: &Facts, t: TermId, memo: &mut HashMap<TermId, TermId>) -> TermId {
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let (lo, hi) = self.range(f, t);
        let r = if lo == hi {
            self.konst(lo)
        } else {
            match self.terms[t as usize].clone() {
                T::Const(_) | T::Atom(_) => t,
                T::Lin(c, ts) => {
                    let v: Vec<_> = ts.iter().map(|(k, x)| (*k, self.renorm_m(f, *x, memo))).collect();
                    self.lin(c, v)
                }
                T::Slice(b, l, w) => {
                    let nb = self.renorm_m(f, b, memo);
                    let d = self.div2(f, nb, l);
                    if w == INF {
                        d
                    } else {
                        self.mod2(f, d, w)
                    }
                }
                T::Prod(v) => {
                    let mut p = self.ki(1);
                    for x in v {
                        let y = self.renorm_m(f, x, memo);
                        p = self.mul(p, y);
                    }
                    p
                }
                T::And(x, y) => {
                    let (nx, ny) = (self.renorm_m(f, x, memo), self.renorm_m(f, y, memo));
                    self.and(f, nx, ny).unwrap_or(t)
                }
                T::Xor1(x, y) => {
                    let (nx, ny) = (self.renorm_m(f, x, memo), self.renorm_m(f, y, memo));
                    self.xor1(nx, ny)
                }
                T::Div(x, y) => {
                    let (nx, ny) = (self.renorm_m(f, x, memo), self.renorm_m(f, y, memo));
                    self.div(f, nx, ny)
                }
                T::Rem(x, y) => {
                    let (nx, ny) = (self.renorm_m(f, x, memo), self.renorm_m(f, y, memo));
                    self.rem(f, nx, ny)
                }
            }
        };
        memo.insert(t, r);
        r
    }
    pub fn atoms_of(&self, t: TermId, out: &mut Vec<u32>) {
        match &self.terms[t as usize] {
            T::Const(_) => {}
            T::Atom(a) => {
                if !out.contains(a) {
                    out.push(*a)
                }
            }
            T::Lin(_, ts) => {
                for x in ts {
                    self.atoms_of(x.1, out)
                }
            }
            T::Slice(b, ..) => self.atoms_of(*b, out),
            T::Prod(v) => {
                for x in v {
                    self.atoms_of(*x, out)
                }
            }
            T::And(a, b) | T::Div(a, b) | T::Rem(a, b) | T::Xor1(a, b) => {
                self.atoms_of(*a, out);
                self.atoms_of(*b, out);
            }
        }
    }

    // ---------- refinement ----------
    /// Assume `c == val`; None if infeasible.  Returns the substitutions performed.
    pub fn refine(&mut self, f: &mut Facts, c: Cond, val: bool) -> Option<Subst> {
        let mut out = vec![];
        let mut c = c;
        if f.nlin > 0 && self.decide(f, c) == Some(!val) {
            return None;
        }
        // expose slices of atoms as atoms of their own
        loop {
            let t = match c {
                Cond::Ge0(t) | Cond::Eq0(t) => t,
            };
            let (_, ts) = self.as_lin(t);
            let mut did = false;
            for (_, x) in ts {
                if let T::Slice(b, lo, w) = self.terms[x as usize] {
                    if let T::Atom(a) = self.terms[b as usize] {
                        let s = self.split_atom(f, a, lo, w)?;
                        let a = b;
                        self.apply(f, a, s, &mut out)?;
                        did = true;
                        let mut memo = HashMap::new();
                        let nt = self.subst(f, t, a, s, &mut memo);
                        c = match c {
                            Cond::Ge0(_) => Cond::Ge0(nt),
                            Cond::Eq0(_) => Cond::Eq0(nt),
                        };
                        break;
                    }
                }
            }
            if !did {
                break;
            }
        }
        let (mut c, mut val) = (c, val);
        for _ in 0..8 {
            let Cond::Eq0(t) = c else { break };
            let (core, g, off) = self.core(t);
            // scale * bit + off == 0: a statement about the bit
            if let T::Xor1(a, b) = self.terms[core as usize] {
                let one = if off.is_zero() {
                    false
                } else if (g + off).is_zero() {
                    true
                } else {
                    break;
                };
                let d = if one == val { self.lin(Z::i(-1), vec![(Z::one(), a), (Z::one(), b)]) } else { self.sub(a, b) };
                c = Cond::Eq0(d);
                val = true;
                continue;
            }
            break;
        }
        match (c, val) {
            (Cond::Ge0(t), true) => self.assume_ge0(f, t, &mut out)?,
            (Cond::Ge0(t), false) => {
                let n = self.lin(Z::i(-1), vec![(Z::i(-1), t)]);
                self.assume_ge0(f, n, &mut out)?
            }
            (Cond::Eq0(t), true) => self.assume_eq0(f, t, &mut out)?,
            (Cond::Eq0(t), false) => self.assume_ne0(f, t, &mut out)?,
        }
        self.propagate(f, &mut out)?;
        Some(out)
    }
    fn split_atom(&mut self, f: &Facts, a: u32, lo: u32, w: u32) -> Option<TermId> {
        let at = self.intern(T::Atom(a));
        let (rl, rh) = self.range(f, at);
        let width = rh.bitlen();
        let info = self.atoms[a as usize].clone();
        let mut cuts = vec![0, lo];
        if w != INF {
            cuts.push(lo + w);
        }
        cuts.push(width.max(lo + 1));
        cuts.sort();
        cuts.dedup();
        cuts.retain(|&c| c <= width);
        let mut v = vec![];
        for p in cuts.windows(2) {
            let (x, y) = (p[0], p[1]);
            if x == y {
                continue;
            }
            let top = y == width;
            let (l, h) = if top { (rl.shr(x), rh.shr(x)) } else { (Z::ZERO, Z::mask(y - x)) };
            let nm = format!("{}[{}..{}]", info.name, x, y);
            let t = if l == h {
                self.konst(l)
            } else {
                let t = self.new_atom(l, h, nm, false, info.havoc);
                let d = self.slice_raw(at, x, if top { INF } else { y - x });
                self.define(t, d);
                t
            };
            v.push((Z::pow2(x), t));
        }
        Some(self.lin(Z::ZERO, v))
    }
    fn set_range(&mut self, f: &mut Facts, t: TermId, r: Rng) {
        if matches!(self.terms[t as usize], T::Lin(..)) && !f.r.contains_key(&t) {
            f.nlin += 1;
        }
        Rc::make_mut(&mut f.r).insert(t, r);
    }
    /// substitute atom a := s everywhere in the facts
    pub fn apply(&mut self, f: &mut Facts, at: TermId, s: TermId, out: &mut Subst) -> Option<()> {
        let a = at;
        let ar = self.range(f, at);
        out.push((a, s));
        let old = std::mem::take(f);
        let mut keys: Vec<(TermId, Rng)> = old.r.iter().map(|x| (*x.0, *x.1)).collect();
        keys.sort();
        for &(t, r) in &keys {
            if t != at && matches!(self.terms[t as usize], T::Atom(_)) {
                self.store(f, t, r)?;
            }
        }
        self.store(f, s, ar)?;
        let mut memo = HashMap::new();
        for &(t, r) in &keys {
            if !matches!(self.terms[t as usize], T::Atom(_)) {
                let n = self.subst(f, t, a, s, &mut memo);
                self.store(f, n, r)?;
            }
        }
        let mut ne = vec![];
        for &(t, v) in old.ne.iter() {
            let n = self.subst(f, t, a, s, &mut memo);
            let d = self.addc(n, -v);
            match self.decide(f, Cond::Eq0(d)) {
                Some(true) => return None,
                Some(false) if self.as_const(d).is_some() => {}
                _ => {
                    let (core, g, off) = self.core(d);
                    let r = off.abs().divrem(g.abs());
                    if r.1.is_zero() {
                        let v = if off.is_neg() == g.is_neg() { -r.0 } else { r.0 };
                        ne.push((core, v));
                    }
                }
            }
        }
        f.ne = Rc::new(ne);
        Some(())
    }
    /// record lo <= t <= hi
    fn store(&mut self, f: &mut Facts, t: TermId, r: Rng) -> Option<()> {
        let (a, b) = self.range(f, t);
        let (l, h) = (a.max(r.0), b.min(r.1));
        if l > h {
            return None;
        }
        if (l, h) == (a, b) {
            return Some(());
        }
        let (core, g, off) = self.core(t);
        // l <= g*core+off <= h
        let (mut cl, mut ch) = if g.is_neg() {
            (divfloor(-(h - off), -g, true), divfloor(-(l - off), -g, false))
        } else {
            (divfloor(l - off, g, true), divfloor(h - off, g, false))
        };
        let (x, y) = self.range(f, core);
        cl = cl.max(x);
        ch = ch.min(y);
        if cl > ch {
            return None;
        }
        self.set_range(f, core, (cl, ch));
        Some(())
    }
    fn assume_ge0(&mut self, f: &mut Facts, t: TermId, out: &mut Subst) -> Option<()> {
        let _ = &out;
        let (_, hi) = self.range(f, t);
        if hi.is_neg() {
            return None;
        }
        self.store(f, t, (Z::ZERO, hi))
    }
    fn assume_ne0(&mut self, f: &mut Facts, t: TermId, _out: &mut Subst) -> Option<()> {
        let (lo, hi) = self.range(f, t);
        if lo.is_zero() && hi.is_zero() {
            return None;
        }
        if lo.is_zero() {
            return self.store(f, t, (Z::one(), hi));
        }
        if hi.is_zero() {
            return self.store(f, t, (lo, Z::i(-1)));
        }
        if hi.is_neg() || lo > Z::ZERO {
            return Some(());
        }
        let (core, g, off) = self.core(t);
        let r = off.abs().divrem(g.abs());
        if r.1.is_zero() {
            let v = if off.is_neg() == g.is_neg() { -r.0 } else { r.0 };
            let (a, b) = self.range(f, core);
            if v == a {
                return self.store(f, core, (a + Z::one(), b));
            }
            if v == b {
                return self.store(f, core, (a, b - Z::one()));
            }
            Rc::make_mut(&mut f.ne).push((core, v));
        }
        Some(())
    }
    /// 0 = 2^k*H + L where L can only be one multiple v of 2^k: (H, -v/2^k, L, v).
    /// Err when it can be none.
    fn split_mod(&mut self, f: &Facts, t: TermId) -> Result<Option<(TermId, TermId)>, ()> {
        let T::Lin(c, ts) = self.terms[t as usize].clone() else { return Ok(None) };
        if ts.len() < 2 {
            return Ok(None);
        }
        let mut ks: Vec<u32> = ts.iter().map(|x| x.0.abs().tz()).collect();
        ks.sort();
        ks.dedup();
        for k in ks.into_iter().skip(1) {
            let lo: Vec<_> = ts.iter().filter(|x| x.0.abs().tz() < k).cloned().collect();
            let (a, b) = self.range_rel(f, c, &lo, 0);
            let m = Z::pow2(k);
            let p = divfloor(a, m, true);
            let q = divfloor(b, m, false);
            if p > q {
                return Err(());
            }
            if p == q {
                let hi: Vec<_> = ts.iter().filter(|x| x.0.abs().tz() >= k).map(|x| (if x.0.is_neg() { -x.0.abs().shr(k) } else { x.0.shr(k) }, x.1)).collect();
                let h = self.lin(p, hi);
                let l = self.lin(c - p * m, lo);
                return Ok(Some((h, l)));
            }
        }
        Ok(None)
    }
    fn assume_eq0(&mut self, f: &mut Facts, t: TermId, out: &mut Subst) -> Option<()> {
        if self.decide(f, Cond::Eq0(t)) == Some(false) {
            return None;
        }
        if let Some(z) = self.as_const(t) {
            return if z.is_zero() { Some(()) } else { None };
        }
        if let Some((h, l)) = self.split_mod(f, t).ok()? {
            let k = out.len();
            self.assume_eq0(f, l, out)?;
            let mut h = h;
            for (a, s) in out[k..].to_vec() {
                let mut memo = HashMap::new();
                h = self.subst(f, h, a, s, &mut memo);
            }
            return self.assume_eq0(f, h, out);
        }
        let (core, g, off) = self.core(t);
        let r = off.abs().divrem(g.abs());
        if !r.1.is_zero() {
            return None;
        }
        let v = if off.is_neg() == g.is_neg() { -r.0 } else { r.0 };
        if let Some(ds) = self.digits(f, core, v) {
            let ds = ds.ok()?;
            let mut pend = ds;
            while let Some((x, d)) = pend.pop() {
                if let T::Atom(_) = self.terms[x as usize] {
                    let a = x;
                    let k = self.konst(d);
                    self.apply(f, a, k, out)?;
                    for p in pend.iter_mut() {
                        let mut memo = HashMap::new();
                        p.0 = self.subst(f, p.0, a, k, &mut memo);
                    }
                } else {
                    self.store(f, x, (d, d))?;
                }
            }
            return Some(());
        }
        if let T::Atom(_) = self.terms[core as usize] {
            let k = self.konst(v);
            return self.apply(f, core, k, out);
        }
        // solve for a unit-coefficient atom
        if let T::Lin(_, ts) = self.terms[core as usize].clone() {
            let mut best: Option<(u32, Z, Z)> = None;
            for (k, x) in &ts {
                if let T::Atom(a) = self.terms[*x as usize] {
                    if k.abs().is_one() {
                        let mut others = vec![];
                        for (_, y) in &ts {
                            if y != x {
                                self.atoms_of(*y, &mut others);
                            }
                        }
                        let (l, h) = self.range(f, *x);
                        if !others.contains(&a) && best.as_ref().map_or(true, |b| h - l > b.2) {
                            best = Some((a, *k, h - l));
                        }
                    }
                }
            }
            if let Some((a, k, _)) = best {
                // k*a + rest = v  => a = k*(v - rest)
                let rest: Vec<_> = ts.iter().filter(|x| !matches!(self.terms[x.1 as usize], T::Atom(b) if b == a)).map(|x| (-(x.0 * k), x.1)).collect();
                let s = self.lin(v * k, rest);
                let at = self.intern(T::Atom(a));
                return self.apply(f, at, s, out);
            }
        }
        self.store(f, core, (v, v))
    }
    /// bound propagation through stored affine facts; substitutes decided atoms
    fn propagate(&mut self, f: &mut Facts, out: &mut Subst) -> Option<()> {
        for _round in 0..12 {
            let mut changed = false;
            // atoms
            let mut keys: Vec<TermId> = f.r.keys().cloned().collect();
            keys.sort();
            for &t in &keys {
                let Some(&(lo, hi)) = f.r.get(&t) else { continue };
                match self.terms[t as usize].clone() {
                    T::Atom(a) => {
                        let (mut lo, mut hi) = (lo.max(self.atoms[a as usize].lo), hi.min(self.atoms[a as usize].hi));
                        // excluded end points
                        loop {
                            if lo > hi {
                                return None;
                            }
                            if f.ne.iter().any(|x| x.0 == t && x.1 == lo) {
                                lo = lo + Z::one();
                            } else if f.ne.iter().any(|x| x.0 == t && x.1 == hi) {
                                hi = hi - Z::one();
                            } else {
                                break;
                            }
                        }
                        if lo == hi {
                            let k = self.konst(lo);
                            self.apply(f, t, k, out)?;
                            changed = true;
                            break;
                        }
                        self.set_range(f, t, (lo, hi));
                        let d = hi - lo;
                        // aligned binade: prefix constant
                        if !lo.is_neg() && !lo.is_zero() {
                            let m = (d + Z::one()).tz();
                            if d + Z::one() == Z::pow2(m) && lo.modp2(m).is_zero() {
                                let info = self.atoms[a as usize].clone();
                                let g = self.new_atom(Z::ZERO, d, format!("{}-{}", info.name, lo), false, info.havoc);
                                let s = self.addc(g, lo);
                                let d = self.addc(t, -lo);
                                self.define(g, d);
                                self.apply(f, t, s, out)?;
                                changed = true;
                                break;
                            }
                        }
                    }
                    T::Lin(_, ts) => {
                        // sum k_i x_i in [lo,hi]
                        let (mut lo, mut hi) = (lo, hi);
                        let (lo0, hi0) = (lo, hi);
                        loop {
                            if lo > hi {
                                return None;
                            }
                            if f.ne.iter().any(|x| x.0 == t && x.1 == lo) {
                                lo = lo + Z::one();
                            } else if f.ne.iter().any(|x| x.0 == t && x.1 == hi) {
                                hi = hi - Z::one();
                            } else {
                                break;
                            }
                        }
                        if (lo0, hi0) != (lo, hi) {
                            self.set_range(f, t, (lo, hi));
                            changed = true;
                        }
                        if f.nlin > 1 && ts.len() > 1 {
                            let (a, _) = self.range_rel(f, -hi - Z::one(), &ts, 2);
                            let (_, b) = self.range_rel(f, -lo, &ts, 2);
                            if !a.is_neg() || b.is_neg() {
                                return None;
                            }
                        }
                        let rs: Vec<Rng> = ts.iter().map(|(k, x)| {
                            let (a, b) = self.range(f, *x);
                            if k.is_neg() { (*k * b, *k * a) } else { (*k * a, *k * b) }
                        }).collect();
                        let sl = rs.iter().fold(Z::ZERO, |s, r| s + r.0);
                        let sh = rs.iter().fold(Z::ZERO, |s, r| s + r.1);
                        if sl > hi || sh < lo {
                            return None;
                        }
                        for (i, (k, x)) in ts.iter().enumerate() {
                            // k*x >= lo - (sh - rs.hi) ; k*x <= hi - (sl - rs.lo)
                            let kl = lo - (sh - rs[i].1);
                            let kh = hi - (sl - rs[i].0);
                            if kl <= rs[i].0 && kh >= rs[i].1 {
                                continue;
                            }
                            let (nl, nh) = if k.is_neg() {
                                (divfloor(-kh, -*k, true), divfloor(-kl, -*k, false))
                            } else {
                                (divfloor(kl, *k, true), divfloor(kh, *k, false))
                            };
                            let (xl, xh) = self.range(f, *x);
                            let (l2, h2) = (xl.max(nl), xh.min(nh));
                            if l2 > h2 {
                                return None;
                            }
                            if (l2, h2) != (xl, xh) {
                                self.set_range(f, *x, (l2, h2));
                                changed = true;
                            }
                        }
                    }
                    T::Slice(b, sh, INF) => {
                        // floor(b / 2^sh) in [lo,hi]
                        if hi.abs().bitlen() + sh > 600 || lo.abs().bitlen() + sh > 600 {
                            continue;
                        }
                        let (nl, nh) = (lo.shl(sh), (hi + Z::one()).shl(sh) - Z::one());
                        let (xl, xh) = self.range(f, b);
                        let (l2, h2) = (xl.max(nl), xh.min(nh));
                        if l2 > h2 {
                            return None;
                        }
                        if (l2, h2) != (xl, xh) {
                            self.store(f, b, (l2, h2))?;
                            let (yl, yh) = self.range(f, b);
                            changed |= (yl, yh) != (xl, xh);
                        }
                    }
                    T::Slice(b, sh, w) => {
                        // floor(b / 2^sh) mod 2^w in [lo,hi]: move the end points of b inwards
                        let (xl, xh) = self.range(f, b);
                        let (ul, uh) = (xl.shr(sh), xh.shr(sh));
                        let m = Z::pow2(w);
                        let r = ul.modp2(w);
                        let nl = if r < lo { ul + (lo - r) } else if r > hi { ul + (m - r) + lo } else { ul };
                        let r = uh.modp2(w);
                        let nh = if r > hi { uh - (r - hi) } else if r < lo { uh - r - (m - hi) } else { uh };
                        if nl > nh {
                            return None;
                        }
                        let l2 = if nl > ul { nl.shl(sh) } else { xl };
                        let h2 = if nh < uh { (nh + Z::one()).shl(sh) - Z::one() } else { xh };
                        if l2 > h2 {
                            return None;
                        }
                        if (l2, h2) != (xl, xh) {
                            self.store(f, b, (l2, h2))?;
                            let (yl, yh) = self.range(f, b);
                            changed |= (yl, yh) != (xl, xh);
                        }
                    }
                    _ => {}
                }
            }
            if !changed {
                break;
            }
        }
        Some(())
    }

    // ---------- evaluation ----------
    /// value of a term given the input atoms only; None when it depends on an over-approximation
    pub fn eval_fwd(&self, t: TermId, roots: &HashMap<u32, Z>, atoms: &mut HashMap<u32, Z>, memo: &mut HashMap<TermId, Z>) -> Option<Z> {
        let mut need = vec![];
        self.atoms_of(t, &mut need);
        for a in need {
            if atoms.contains_key(&a) {
                continue;
            }
            let v = match roots.get(&a) {
                Some(v) => *v,
                None => {
                    let d = self.atoms[a as usize].def?;
                    self.eval_fwd(d, roots, atoms, memo)?
                }
            };
            atoms.insert(a, v);
        }
        self.eval(t, &mut |x| atoms[&x], memo)
    }
    pub fn eval(&self, t: TermId, env: &mut dyn FnMut(u32) -> Z, memo: &mut HashMap<TermId, Z>) -> Option<Z> {
        if let T::Const(z) = &self.terms[t as usize] {
            return Some(*z);
        }
        if let Some(z) = memo.get(&t) {
            return Some(*z);
        }
        let z = match &self.terms[t as usize] {
            T::Const(z) => *z,
            T::Atom(a) => env(*a),
            T::Lin(c, ts) => {
                let mut s = *c;
                for (k, x) in ts {
                    s = s + *k * self.eval(*x, env, memo)?;
                }
                s
            }
            T::Slice(b, lo, w) => {
                let v = self.eval(*b, env, memo)?.shr(*lo);
                if *w == INF {
                    v
                } else {
                    v.modp2(*w)
                }
            }
            T::Prod(v) => {
                let mut p = Z::one();
                for x in v {
                    p = p * self.eval(*x, env, memo)?;
                }
                p
            }
            T::And(a, b) => self.eval(*a, env, memo)?.and(self.eval(*b, env, memo)?),
            T::Xor1(a, b) => Z::i((self.eval(*a, env, memo)? != self.eval(*b, env, memo)?) as i128),
            T::Div(a, b) | T::Rem(a, b) => {
                let x = self.eval(*a, env, memo)?;
                let y = self.eval(*b, env, memo)?;
                if y <= Z::ZERO || x.is_neg() {
                    return None;
                }
                let (q, r) = x.divrem(y);
                if matches!(self.terms[t as usize], T::Div(..)) {
                    q
                } else {
                    r
                }
            }
        };
        memo.insert(t, z);
        Some(z)
    }
    pub fn show(&self, t: TermId) -> String {
        match &self.terms[t as usize] {
            T::Const(z) => format!("{z}"),
            T::Atom(a) => self.atoms[*a as usize].name.clone(),
            T::Lin(c, ts) => {
                let mut s = String::from("(");
                for (i, (k, x)) in ts.iter().enumerate() {
                    if i > 0 {
                        s.push_str(" + ");
                    }
                    if k.is_one() {
                        s.push_str(&self.show(*x))
                    } else {
                        write!(s, "{}*{}", k, self.show(*x)).unwrap()
                    }
                }
                if !c.is_zero() {
                    write!(s, " + {}", c).unwrap();
                }
                s.push(')');
                s
            }
            T::Slice(b, lo, w) => {
                if *w == INF {
                    format!("{}>>{}", self.show(*b), lo)
                } else {
                    format!("{}<{}+:{}>", self.show(*b), lo, w)
                }
            }
            T::Prod(v) => v.iter().map(|x| self.show(*x)).collect::<Vec<_>>().join("*"),
            T::And(a, b) => format!("({} & {})", self.show(*a), self.show(*b)),
            T::Div(a, b) => format!("({} / {})", self.show(*a), self.show(*b)),
            T::Xor1(a, b) => format!("({} ^ {})", self.show(*a), self.show(*b)),
            T::Rem(a, b) => format!("({} % {})", self.show(*a), self.show(*b)),
        }
    }
}

fn divexact(a: Z, g: Z) -> Z {
    let (q, r) = a.abs().divrem(g.abs());
    debug_assert!(r.is_zero());
    if a.is_neg() != g.is_neg() {
        -q
    } else {
        q
    }
}
/// floor (ceil if up) of a/b, b > 0
pub fn divfloor(a: Z, b: Z, up: bool) -> Z {
    if b.is_one() {
        return a;
    }
    let (q, r) = a.abs().divrem(b);
    if a.is_neg() {
        if r.is_zero() || up {
            -q
        } else {
            -q - Z::one()
        }
    } else if r.is_zero() || !up {
        q
    } else {
        q + Z::one()
    }
}
