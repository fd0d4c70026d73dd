//! Stand-in for the git dependency `decimal` (solana-decimal 0.4.0), which is
//! not available offline.  It gives the type checker the same surface: a
//! fixed-point number with 18 decimals in 192 bits.  The static analysis only
//! uses the signatures; the bodies are functional (truncating WAD arithmetic)
//! so that demonstrations can run the surrounding code.
use anchor_lang::prelude::*;
use std::cmp::Ordering;

pub const WAD: u64 = 1_000_000_000_000_000_000;
pub const HALF_WAD: u64 = 500_000_000_000_000_000;
pub const SCALE: usize = 18;

fn overflow() -> anchor_lang::error::Error {
    ProgramError::InvalidArgument.into()
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct U192(pub [u64; 3]);

impl Ord for U192 {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.0[2], self.0[1], self.0[0]).cmp(&(o.0[2], o.0[1], o.0[0]))
    }
}
impl PartialOrd for U192 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl From<u64> for U192 {
    fn from(v: u64) -> Self {
        U192([v, 0, 0])
    }
}
impl From<u128> for U192 {
    fn from(v: u128) -> Self {
        U192([v as u64, (v >> 64) as u64, 0])
    }
}

// little-endian multi-word helpers -------------------------------------------
fn trim(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn big(u: U192) -> Vec<u64> {
    trim(u.0.to_vec())
}
fn small(v: Vec<u64>) -> Result<U192> {
    let v = trim(v);
    if v.len() > 3 {
        return Err(overflow());
    }
    let mut o = [0u64; 3];
    o[..v.len()].copy_from_slice(&v);
    Ok(U192(o))
}
fn bcmp(a: &[u64], b: &[u64]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn badd(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut o = vec![];
    let mut c = 0u128;
    for i in 0..a.len().max(b.len()) {
        let s = *a.get(i).unwrap_or(&0) as u128 + *b.get(i).unwrap_or(&0) as u128 + c;
        o.push(s as u64);
        c = s >> 64;
    }
    o.push(c as u64);
    trim(o)
}
fn bsub(a: &[u64], b: &[u64]) -> Option<Vec<u64>> {
    if bcmp(a, b) == Ordering::Less {
        return None;
    }
    let mut o = vec![];
    let mut br = 0i128;
    for i in 0..a.len() {
        let mut s = a[i] as i128 - *b.get(i).unwrap_or(&0) as i128 - br;
        br = 0;
        if s < 0 {
            s += 1i128 << 64;
            br = 1;
        }
        o.push(s as u64);
    }
    Some(trim(o))
}
fn bmul(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut o = vec![0u64; a.len() + b.len() + 1];
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            let t = a[i] as u128 * b[j] as u128 + o[i + j] as u128 + c;
            o[i + j] = t as u64;
            c = t >> 64;
        }
        let mut k = i + b.len();
        while c > 0 {
            let t = o[k] as u128 + c;
            o[k] = t as u64;
            c = t >> 64;
            k += 1;
        }
    }
    trim(o)
}
fn bshl1(a: &[u64]) -> Vec<u64> {
    badd(a, a)
}
fn bdiv(a: &[u64], b: &[u64]) -> Option<Vec<u64>> {
    if b.is_empty() {
        return None;
    }
    let mut q = vec![0u64; a.len()];
    let mut r: Vec<u64> = vec![];
    for i in (0..a.len() * 64).rev() {
        r = bshl1(&r);
        if (a[i / 64] >> (i % 64)) & 1 == 1 {
            r = badd(&r, &[1]);
        }
        if bcmp(&r, b) != Ordering::Less {
            r = bsub(&r, b).unwrap();
            q[i / 64] |= 1 << (i % 64);
        }
    }
    Some(trim(q))
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Decimal(pub U192);
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct LargeDecimal(pub [u64; 5]);

pub trait TryAdd<RHS = Self>: Sized {
    fn try_add(self, rhs: RHS) -> Result<Self>;
}
pub trait TrySub<RHS = Self>: Sized {
    fn try_sub(self, rhs: RHS) -> Result<Self>;
}
pub trait TryMul<RHS = Self>: Sized {
    fn try_mul(self, rhs: RHS) -> Result<Self>;
}
pub trait TryDiv<RHS = Self>: Sized {
    fn try_div(self, rhs: RHS) -> Result<Self>;
}
pub trait TryPow<RHS = u64>: Sized {
    fn try_pow(self, rhs: RHS) -> Result<Self>;
}
pub trait TrySqrt: Sized {
    fn try_sqrt(self) -> Result<Self>;
}
pub trait TryRound<T = u64>: Sized {
    fn try_floor(self) -> Result<T>;
    fn try_ceil(self) -> Result<T>;
    fn try_round(self) -> Result<T>;
}
pub trait ScaledVal: Sized {
    fn to_scaled_val(&self) -> Result<u128>;
    fn from_scaled_val(v: u128) -> Self;
}
pub trait AlmostEq {
    fn almost_eq(&self, other: &Self, precision: u32) -> bool;
}

impl Decimal {
    pub fn one() -> Self {
        Self::from(1u64)
    }
    pub fn zero() -> Self {
        Self::default()
    }
    pub fn from_percent(p: u64) -> Self {
        Self::from_permillion(p * 10_000)
    }
    pub fn from_permillion(p: u64) -> Self {
        Self(small(bmul(&trim(vec![p]), &[WAD / 1_000_000])).unwrap())
    }
    pub fn from_scaled_val(v: u128) -> Self {
        Self(U192::from(v))
    }
    pub fn to_scaled_val(&self) -> Result<u128> {
        if self.0 .0[2] != 0 {
            return Err(overflow());
        }
        Ok((self.0 .0[1] as u128) << 64 | self.0 .0[0] as u128)
    }
    fn to_u64(v: Vec<u64>) -> Result<u64> {
        let q = bdiv(&v, &[WAD]).ok_or_else(overflow)?;
        match q.len() {
            0 => Ok(0),
            1 => Ok(q[0]),
            _ => Err(overflow()),
        }
    }
}
impl From<u64> for Decimal {
    fn from(v: u64) -> Self {
        Decimal(small(bmul(&trim(vec![v]), &[WAD])).unwrap())
    }
}
impl From<u128> for Decimal {
    fn from(v: u128) -> Self {
        Decimal(small(bmul(&big(U192::from(v)), &[WAD])).unwrap())
    }
}
impl std::fmt::Display for Decimal {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let mut d = vec![];
        let mut v = big(self.0);
        while !v.is_empty() {
            let q = bdiv(&v, &[10]).unwrap();
            let r = bsub(&v, &bmul(&q, &[10])).unwrap();
            d.push(b'0' + *r.first().unwrap_or(&0) as u8);
            v = q;
        }
        while d.len() < SCALE + 1 {
            d.push(b'0');
        }
        d.insert(SCALE, b'.');
        d.reverse();
        f.write_str(std::str::from_utf8(&d).unwrap())
    }
}
impl TryAdd for Decimal {
    fn try_add(self, rhs: Self) -> Result<Self> {
        Ok(Self(small(badd(&big(self.0), &big(rhs.0)))?))
    }
}
impl TrySub for Decimal {
    fn try_sub(self, rhs: Self) -> Result<Self> {
        Ok(Self(small(bsub(&big(self.0), &big(rhs.0)).ok_or_else(overflow)?)?))
    }
}
impl TryMul<Decimal> for Decimal {
    fn try_mul(self, rhs: Self) -> Result<Self> {
        Ok(Self(small(bdiv(&bmul(&big(self.0), &big(rhs.0)), &[WAD]).unwrap())?))
    }
}
impl TryMul<u64> for Decimal {
    fn try_mul(self, rhs: u64) -> Result<Self> {
        Ok(Self(small(bmul(&big(self.0), &trim(vec![rhs])))?))
    }
}
impl TryDiv<Decimal> for Decimal {
    fn try_div(self, rhs: Self) -> Result<Self> {
        Ok(Self(small(
            bdiv(&bmul(&big(self.0), &[WAD]), &big(rhs.0)).ok_or_else(overflow)?,
        )?))
    }
}
impl TryDiv<u64> for Decimal {
    fn try_div(self, rhs: u64) -> Result<Self> {
        Ok(Self(small(bdiv(&big(self.0), &trim(vec![rhs])).ok_or_else(overflow)?)?))
    }
}
impl TryPow<u64> for Decimal {
    fn try_pow(self, mut e: u64) -> Result<Self> {
        let mut base = self;
        let mut acc = Decimal::one();
        while e > 0 {
            if e & 1 == 1 {
                acc = acc.try_mul(base)?;
            }
            e >>= 1;
            if e > 0 {
                base = base.try_mul(base)?;
            }
        }
        Ok(acc)
    }
}
impl TrySqrt for Decimal {
    fn try_sqrt(self) -> Result<Self> {
        // isqrt(v * WAD)
        let n = bmul(&big(self.0), &[WAD]);
        if n.is_empty() {
            return Ok(self);
        }
        let bits = n.len() * 64;
        let mut r: Vec<u64> = vec![];
        for i in (0..=bits / 2).rev() {
            let mut bit = vec![0u64; i / 64 + 1];
            bit[i / 64] = 1 << (i % 64);
            let c = badd(&r, &bit);
            if bcmp(&bmul(&c, &c), &n) != Ordering::Greater {
                r = c;
            }
        }
        Ok(Self(small(r)?))
    }
}
impl TryRound<u64> for Decimal {
    fn try_floor(self) -> Result<u64> {
        Self::to_u64(big(self.0))
    }
    fn try_ceil(self) -> Result<u64> {
        Self::to_u64(badd(&big(self.0), &[WAD - 1]))
    }
    fn try_round(self) -> Result<u64> {
        Self::to_u64(badd(&big(self.0), &[HALF_WAD]))
    }
}
impl ScaledVal for Decimal {
    fn to_scaled_val(&self) -> Result<u128> {
        Decimal::to_scaled_val(self)
    }
    fn from_scaled_val(v: u128) -> Self {
        Decimal::from_scaled_val(v)
    }
}
impl AlmostEq for Decimal {
    fn almost_eq(&self, o: &Self, precision: u32) -> bool {
        let (a, b) = if self > o { (self, o) } else { (o, self) };
        a.try_sub(*b).map(|d| d.0 < U192::from(10u128.pow(SCALE as u32 - precision))).unwrap_or(false)
    }
}
