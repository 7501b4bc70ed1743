//! Fixed-width (768-bit two's complement) mathematical integers.  An operation that leaves the
//! range raises a flag, and the interpreter gives up on the partition that raised it.
use std::cmp::Ordering;
use std::fmt;
pub const N: usize = 12;
thread_local! { static OVER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn take_overflow() -> bool {
    OVER.with(|o| o.replace(false))
}
#[cold]
fn overflow() {
    OVER.with(|o| o.set(true))
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Z(pub [u64; N]);
impl Z {
    pub const ZERO: Z = Z([0; N]);
    pub fn i(v: i128) -> Z {
        let s = if v < 0 { u64::MAX } else { 0 };
        let mut a = [s; N];
        a[0] = v as u64;
        a[1] = (v >> 64) as u64;
        Z(a)
    }
    pub fn u(v: u128) -> Z {
        let mut a = [0; N];
        a[0] = v as u64;
        a[1] = (v >> 64) as u64;
        Z(a)
    }
    pub fn one() -> Z {
        Z::u(1)
    }
    pub fn pow2(k: u32) -> Z {
        assert!((k as usize) < N * 64 - 1, "pow2 overflow");
        let mut a = [0; N];
        a[k as usize / 64] = 1 << (k % 64);
        Z(a)
    }
    pub fn mask(k: u32) -> Z {
        Z::pow2(k) - Z::one()
    }
    pub fn is_neg(&self) -> bool {
        self.0[N - 1] >> 63 == 1
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; N]
    }
    pub fn is_one(&self) -> bool {
        self.0[0] == 1 && self.0[1..].iter().all(|&x| x == 0)
    }
    pub fn shl(self, k: u32) -> Z {
        if k == 0 || self.is_zero() {
            return self;
        }
        let w = k as usize / 64;
        let b = k % 64;
        let mut a = [0; N];
        for i in (w..N).rev() {
            a[i] = self.0[i - w] << b;
            if b > 0 && i > w {
                a[i] |= self.0[i - w - 1] >> (64 - b);
            }
        }
        let r = Z(a);
        if r.shr(k) != self {
            overflow();
        }
        r
    }
    pub fn shr(self, k: u32) -> Z {
        if k == 0 {
            return self;
        }
        let s = if self.is_neg() { u64::MAX } else { 0 };
        let w = k as usize / 64;
        let b = k % 64;
        let mut a = [s; N];
        for i in 0..N {
            let lo = if i + w < N { self.0[i + w] } else { s };
            let hi = if i + w + 1 < N { self.0[i + w + 1] } else { s };
            a[i] = if b == 0 { lo } else { lo >> b | hi << (64 - b) };
        }
        Z(a)
    }
    pub fn modp2(self, k: u32) -> Z {
        self.and(Z::mask(k))
    }
    pub fn and(self, o: Z) -> Z {
        let mut a = [0; N];
        for i in 0..N {
            a[i] = self.0[i] & o.0[i];
        }
        Z(a)
    }
    pub fn or(self, o: Z) -> Z {
        let mut a = [0; N];
        for i in 0..N {
            a[i] = self.0[i] | o.0[i];
        }
        Z(a)
    }
    pub fn not(self) -> Z {
        let mut a = [0; N];
        for i in 0..N {
            a[i] = !self.0[i];
        }
        Z(a)
    }
    pub fn abs(self) -> Z {
        if self.is_neg() {
            -self
        } else {
            self
        }
    }
    /// number of bits of a non-negative value
    pub fn bitlen(&self) -> u32 {
        for i in (0..N).rev() {
            if self.0[i] != 0 {
                return i as u32 * 64 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }
    pub fn tz(&self) -> u32 {
        for i in 0..N {
            if self.0[i] != 0 {
                return i as u32 * 64 + self.0[i].trailing_zeros();
            }
        }
        u32::MAX
    }
    pub fn bit(&self, k: u32) -> bool {
        self.0[k as usize / 64] >> (k % 64) & 1 == 1
    }
    /// truncated division of non-negative numbers
    pub fn divrem(self, d: Z) -> (Z, Z) {
        assert!(!d.is_zero() && !self.is_neg() && !d.is_neg());
        let mut q = Z::ZERO;
        let mut r = Z::ZERO;
        for i in (0..self.bitlen()).rev() {
            r = r.shl(1);
            if self.bit(i) {
                r.0[0] |= 1;
            }
            if r >= d {
                r = r - d;
                q.0[i as usize / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
    pub fn fits_i128(&self) -> bool {
        *self >= Z::i(i128::MIN) && *self <= Z::i(i128::MAX)
    }
    pub fn to_i128(&self) -> i128 {
        (self.0[0] as u128 | (self.0[1] as u128) << 64) as i128
    }
    pub fn to_u128(&self) -> u128 {
        self.0[0] as u128 | (self.0[1] as u128) << 64
    }
    pub fn to_i64(&self) -> i64 {
        self.0[0] as i64
    }
    pub fn parse(s: &str) -> Z {
        if let Some(r) = s.strip_prefix('-') {
            return -Z::parse(r);
        }
        if let Ok(v) = s.parse::<u128>() {
            return Z::u(v);
        }
        panic!("bad int {s}")
    }
    pub fn gcd(a: Z, b: Z) -> Z {
        let (mut a, mut b) = (a.abs(), b.abs());
        while !b.is_zero() {
            let r = a.divrem(b).1;
            a = b;
            b = r;
        }
        a
    }
}
impl std::ops::Add for Z {
    type Output = Z;
    #[inline]
    fn add(self, o: Z) -> Z {
        let mut a = [0; N];
        let mut c = false;
        for i in 0..N {
            let (x, c1) = self.0[i].overflowing_add(o.0[i]);
            let (y, c2) = x.overflowing_add(c as u64);
            a[i] = y;
            c = c1 | c2;
        }
        if ((self.0[N - 1] ^ a[N - 1]) & (o.0[N - 1] ^ a[N - 1])) >> 63 == 1 {
            overflow();
        }
        Z(a)
    }
}
impl std::ops::Neg for Z {
    type Output = Z;
    fn neg(self) -> Z {
        self.not() + Z::one()
    }
}
impl std::ops::Sub for Z {
    type Output = Z;
    #[inline]
    fn sub(self, o: Z) -> Z {
        let mut a = [0; N];
        let mut c = false;
        for i in 0..N {
            let (x, c1) = self.0[i].overflowing_sub(o.0[i]);
            let (y, c2) = x.overflowing_sub(c as u64);
            a[i] = y;
            c = c1 | c2;
        }
        if ((self.0[N - 1] ^ o.0[N - 1]) & (self.0[N - 1] ^ a[N - 1])) >> 63 == 1 {
            overflow();
        }
        Z(a)
    }
}
impl std::ops::Mul for Z {
    type Output = Z;
    fn mul(self, o: Z) -> Z {
        if self.is_zero() || o.is_zero() {
            return Z::ZERO;
        }
        if self.is_one() {
            return o;
        }
        if o.is_one() {
            return self;
        }
        let neg = self.is_neg() != o.is_neg();
        let (x, y) = (self.abs(), o.abs());
        let mut a = [0u64; N];
        for i in 0..N {
            if x.0[i] == 0 {
                continue;
            }
            let mut c = 0u128;
            for j in 0..N - i {
                let t = x.0[i] as u128 * y.0[j] as u128 + a[i + j] as u128 + c;
                a[i + j] = t as u64;
                c = t >> 64;
            }
            if c != 0 || y.0[N - i..].iter().any(|&v| v != 0) {
                overflow();
            }
        }
        if a[N - 1] >> 63 == 1 {
            overflow();
        }
        if neg {
            -Z(a)
        } else {
            Z(a)
        }
    }
}
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Z {
    #[inline]
    fn cmp(&self, o: &Z) -> Ordering {
        match (self.is_neg(), o.is_neg()) {
            (true, false) => return Ordering::Less,
            (false, true) => return Ordering::Greater,
            _ => {}
        }
        for i in (0..N).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
}
impl fmt::Display for Z {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.is_neg() {
            write!(f, "-")?;
        }
        let a = self.abs();
        if a.bitlen() <= 20 {
            return write!(f, "{}", a.0[0]);
        }
        if a.bitlen() <= 128 {
            return write!(f, "{:#x}", a.to_u128());
        }
        write!(f, "0x")?;
        let n = (a.bitlen() as usize + 63) / 64;
        for i in (0..n).rev() {
            if i == n - 1 {
                write!(f, "{:x}", a.0[i])?
            } else {
                write!(f, "{:016x}", a.0[i])?
            }
        }
        Ok(())
    }
}
impl fmt::Debug for Z {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
