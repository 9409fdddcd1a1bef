//! Reference natural numbers: little-endian base 10^8 limbs, schoolbook algorithms only.
use std::cmp::Ordering;

pub const B: u64 = 100_000_000;
pub const P10: [u32; 9] = [1, 10, 100, 1_000, 10_000, 100_000, 1_000_000, 10_000_000, 100_000_000];

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Big(pub Vec<u32>);

impl Big {
    pub fn zero() -> Big {
        Big(Vec::new())
    }
    pub fn one() -> Big {
        Big(vec![1])
    }
    pub fn from_u128(mut v: u128) -> Big {
        let mut r = Vec::new();
        while v > 0 {
            r.push((v % B as u128) as u32);
            v /= B as u128;
        }
        Big(r)
    }
    fn norm(mut self) -> Big {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn to_u128(&self) -> Option<u128> {
        let mut r: u128 = 0;
        for &l in self.0.iter().rev() {
            r = r.checked_mul(B as u128)?.checked_add(l as u128)?;
        }
        Some(r)
    }
    /// Decimal digits, most significant first, no leading zeros; empty for zero.
    pub fn from_digits(d: &[u8]) -> Big {
        let mut r = Vec::with_capacity(d.len() / 8 + 1);
        let mut end = d.len();
        while end > 0 {
            let start = end.saturating_sub(8);
            let mut v = 0u32;
            for &c in &d[start..end] {
                debug_assert!(c < 10);
                v = v * 10 + c as u32;
            }
            r.push(v);
            end = start;
        }
        Big(r).norm()
    }
    pub fn to_digits(&self) -> Vec<u8> {
        let mut s = Vec::with_capacity(self.0.len() * 8);
        for &l in self.0.iter().rev() {
            for k in (0..8).rev() {
                s.push((l / P10[k] % 10) as u8);
            }
        }
        let nz = s.iter().take_while(|&&c| c == 0).count();
        s.drain(..nz);
        s
    }
    pub fn to_string(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        self.to_digits().iter().map(|c| (c + b'0') as char).collect()
    }
    /// Number of decimal digits (0 for zero).
    pub fn ndigits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(&l) => {
                let mut n = (self.0.len() - 1) * 8;
                let mut v = l;
                while v > 0 {
                    n += 1;
                    v /= 10;
                }
                n
            }
        }
    }
    /// Decimal digit number i (0 = least significant).
    pub fn digit(&self, i: usize) -> u32 {
        match self.0.get(i / 8) {
            None => 0,
            Some(&l) => l / P10[i % 8] % 10,
        }
    }
    pub fn trailing_zeros(&self) -> usize {
        let mut n = 0;
        for &l in &self.0 {
            if l == 0 {
                n += 8;
            } else {
                let mut v = l;
                while v % 10 == 0 {
                    n += 1;
                    v /= 10;
                }
                break;
            }
        }
        n
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        if self.0.len() != o.0.len() {
            return self.0.len().cmp(&o.0.len());
        }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
    pub fn add(&self, o: &Big) -> Big {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            r.push((c % B) as u32);
            c /= B;
        }
        if c > 0 {
            r.push(c as u32);
        }
        Big(r)
    }
    /// self - o, requires self >= o
    pub fn sub(&self, o: &Big) -> Big {
        let mut r = Vec::with_capacity(self.0.len());
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut v = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            if v < 0 {
                v += B as i64;
                b = 1;
            } else {
                b = 0;
            }
            r.push(v as u32);
        }
        assert!(b == 0 && o.0.len() <= self.0.len(), "model: Big::sub underflow");
        Big(r).norm()
    }
    pub fn mul_small(&self, m: u32) -> Big {
        let mut r = Vec::with_capacity(self.0.len() + 1);
        let mut c = 0u64;
        for &l in &self.0 {
            c += l as u64 * m as u64;
            r.push((c % B) as u32);
            c /= B;
        }
        while c > 0 {
            r.push((c % B) as u32);
            c /= B;
        }
        Big(r).norm()
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::zero();
        }
        let (a, b) = if self.0.len() <= o.0.len() { (&self.0, &o.0) } else { (&o.0, &self.0) };
        let mut acc = vec![0u64; a.len() + b.len() + 1];
        for (i, &x) in a.iter().enumerate() {
            if x == 0 {
                continue;
            }
            let x = x as u64;
            // at most 1000 additions of < 10^16 each fit a u64 before normalising
            if i % 1000 == 999 {
                let mut c = 0;
                for v in acc.iter_mut() {
                    *v += c;
                    c = *v / B;
                    *v %= B;
                }
            }
            for (j, &y) in b.iter().enumerate() {
                acc[i + j] += x * y as u64;
            }
        }
        let mut c = 0;
        let mut r = Vec::with_capacity(acc.len() + 1);
        for v in acc {
            let t = v + c;
            r.push((t % B) as u32);
            c = t / B;
        }
        while c > 0 {
            r.push((c % B) as u32);
            c /= B;
        }
        Big(r).norm()
    }
    pub fn mul_pow10(&self, n: usize) -> Big {
        if self.is_zero() || n == 0 {
            return self.clone();
        }
        let m = self.mul_small_keep(P10[n % 8]);
        let mut r = vec![0u32; n / 8];
        r.extend_from_slice(&m.0);
        Big(r)
    }
    fn mul_small_keep(&self, m: u32) -> Big {
        if m == 1 {
            self.clone()
        } else {
            self.mul_small(m)
        }
    }
    pub fn divrem_small(&self, d: u32) -> (Big, u32) {
        let mut r = vec![0u32; self.0.len()];
        let mut c = 0u64;
        for i in (0..self.0.len()).rev() {
            c = c * B + self.0[i] as u64;
            r[i] = (c / d as u64) as u32;
            c %= d as u64;
        }
        (Big(r).norm(), c as u32)
    }
    /// (self / 10^n truncated, leading removed decimal digit, whether anything nonzero was removed)
    pub fn div_pow10(&self, n: usize) -> (Big, u32, bool) {
        if n == 0 {
            return (self.clone(), 0, false);
        }
        let top = self.digit(n - 1);
        let k = n / 8;
        if k > self.0.len() {
            return (Big::zero(), top, !self.is_zero());
        }
        let mut nz = self.0[..k].iter().any(|&l| l != 0);
        let hi = Big(self.0[k..].to_vec());
        if n % 8 == 0 {
            return (hi, top, nz);
        }
        let (q, r) = hi.divrem_small(P10[n % 8]);
        nz |= r != 0;
        (q, top, nz)
    }
    pub fn pow10(n: usize) -> Big {
        Big::one().mul_pow10(n)
    }

    pub fn shl_small(&self, bits: u32) -> Big {
        self.mul_small(1u32 << bits)
    }
    /// Quotient and remainder (schoolbook long division, Knuth D in base 10^8).
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero(), "model: division by zero");
        if self.cmp(d) == Ordering::Less {
            return (Big::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let (q, r) = self.divrem_small(d.0[0]);
            return (q, Big::from_u128(r as u128));
        }
        // normalise so that the leading limb of the divisor is at least B/2
        let f = (B / (d.0[d.0.len() - 1] as u64 + 1)) as u32;
        let v = d.mul_small(f);
        let mut u = self.mul_small(f).0;
        let n = v.0.len();
        u.push(0);
        if u.len() == n {
            u.push(0);
        }
        let m = u.len() - n;
        let mut q = vec![0u32; m];
        let (v1, v2) = (v.0[n - 1] as u64, v.0[n - 2] as u64);
        for j in (0..m).rev() {
            let top = if j + n < u.len() { u[j + n] as u64 } else { 0 };
            let num = top * B + u[j + n - 1] as u64;
            let mut qh = num / v1;
            let mut rh = num % v1;
            while qh >= B || qh * v2 > rh * B + u[j + n - 2] as u64 {
                qh -= 1;
                rh += v1;
                if rh >= B {
                    break;
                }
            }
            let mut borrow: i64 = 0;
            let mut carry: u64 = 0;
            for i in 0..n {
                let p = qh * v.0[i] as u64 + carry;
                carry = p / B;
                let t = u[i + j] as i64 - borrow - (p % B) as i64;
                if t < 0 {
                    u[i + j] = (t + B as i64) as u32;
                    borrow = 1;
                } else {
                    u[i + j] = t as u32;
                    borrow = 0;
                }
            }
            let hi = if j + n < u.len() { u[j + n] as i64 } else { 0 };
            let t = hi - borrow - carry as i64;
            if j + n < u.len() {
                u[j + n] = if t < 0 { (t + B as i64) as u32 } else { t as u32 };
            }
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let s = u[i + j] as u64 + v.0[i] as u64 + c;
                    u[i + j] = (s % B) as u32;
                    c = s / B;
                }
                if j + n < u.len() {
                    u[j + n] = ((u[j + n] as u64 + c) % B) as u32;
                }
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        let r = Big(u).norm();
        let (r, z) = r.divrem_small(f);
        assert_eq!(z, 0);
        (Big(q).norm(), r)
    }
    pub fn is_odd(&self) -> bool {
        self.0.first().map_or(false, |l| l % 2 == 1)
    }
    pub fn pow(&self, mut e: u32) -> Big {
        let mut r = Big::one();
        let mut b = self.clone();
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(&b);
            }
        }
        r
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn divrem() {
        let mut s = 7u64;
        let mut rnd = || {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            s >> 33
        };
        for _ in 0..20000 {
            let mk = |n: usize, rnd: &mut dyn FnMut() -> u64| {
                Big((0..n).map(|_| match rnd() % 5 { 0 => 0, 1 => (B - 1) as u32, 2 => 1, 3 => (B / 2) as u32, _ => (rnd() % B) as u32 }).collect()).norm()
            };
            let (n, m) = ((rnd() % 8) as usize, 1 + (rnd() % 6) as usize);
            let a = mk(n, &mut rnd);
            let b = mk(m, &mut rnd);
            if b.is_zero() {
                continue;
            }
            let (q, r) = a.divrem(&b);
            assert!(r.cmp(&b) == Ordering::Less);
            assert_eq!(q.mul(&b).add(&r), a);
        }
    }
}
