//! Exact comparison of decimal texts with doubles, by big integers.
use std::cmp::Ordering;

#[derive(Clone, Debug)]
struct Big(Vec<u32>);

impl Big {
    fn from_u64(v: u64) -> Self {
        Big(vec![v as u32, (v >> 32) as u32]).trim()
    }
    fn trim(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    fn mul_add(&mut self, m: u32, a: u32) {
        let mut c = u64::from(a);
        for d in &mut self.0 {
            let v = u64::from(*d) * u64::from(m) + c;
            *d = v as u32;
            c = v >> 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    fn mul_pow10(&mut self, mut n: usize) {
        while n >= 9 {
            self.mul_add(1_000_000_000, 0);
            n -= 9;
        }
        for _ in 0..n {
            self.mul_add(10, 0);
        }
    }
    fn shl(&mut self, n: usize) {
        if self.0.is_empty() {
            return;
        }
        for _ in 0..n % 32 {
            self.mul_add(2, 0);
        }
        let mut v = vec![0; n / 32];
        v.append(&mut self.0);
        self.0 = v;
    }
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    fn divmod_small(&mut self, m: u32) -> u32 {
        let mut r = 0u64;
        for d in self.0.iter_mut().rev() {
            let v = (r << 32) | u64::from(*d);
            *d = (v / u64::from(m)) as u32;
            r = v % u64::from(m);
        }
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        r as u32
    }
    fn decimal(mut self) -> String {
        let mut parts = Vec::new();
        while !self.0.is_empty() {
            parts.push(self.divmod_small(1_000_000_000));
        }
        let mut t = parts.pop().map_or("0".to_owned(), |p| p.to_string());
        for p in parts.iter().rev() {
            t.push_str(&format!("{p:09}"));
        }
        t
    }
}

/// Decimal text as integer times a power of ten.
fn decimal(lit: &str) -> (Big, i64) {
    let t = lit.replace('_', "");
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (t[..i].to_owned(), t[i + 1..].parse::<i64>().unwrap()),
        None => (t, 0),
    };
    let mut n = Big(vec![]);
    let mut exp = e;
    let mut frac = false;
    for c in m.chars() {
        if c == '.' {
            frac = true;
            continue;
        }
        n.mul_add(10, c.to_digit(10).unwrap());
        if n.0.is_empty() && c != '0' {
            n = Big::from_u64(u64::from(c.to_digit(10).unwrap()));
        }
        if frac {
            exp -= 1;
        }
    }
    (n, exp)
}

/// Compares n*10^e with m*2^k.
fn compare(n: &Big, e: i64, m: &Big, k: i64) -> Ordering {
    let (mut a, mut b) = (n.clone(), m.clone());
    if e >= 0 {
        a.mul_pow10(e as usize);
    } else {
        b.mul_pow10((-e) as usize);
    }
    if k >= 0 {
        b.shl(k as usize);
    } else {
        a.shl((-k) as usize);
    }
    a.trim().cmp(&b.trim())
}

/// Significand and exponent of a finite non-negative double.
fn parts(v: f64) -> (u64, i64) {
    let b = v.to_bits();
    let e = ((b >> 52) & 0x7ff) as i64;
    let f = b & ((1 << 52) - 1);
    if e == 0 {
        (f, -1074)
    } else {
        (f | (1 << 52), e - 1075)
    }
}

/// Is `v` the double nearest to the written decimal (ties to even, overflow to infinity)?
pub fn is_nearest(lit: &str, v: f64) -> bool {
    if v.is_nan() || v.is_sign_negative() {
        return false;
    }
    let (n, e) = decimal(lit);
    if n.0.is_empty() {
        return v == 0.0;
    }
    let even = v.to_bits() & 1 == 0;
    // above the lower midpoint
    let above = if v == 0.0 {
        true
    } else {
        let prev = f64::from_bits(v.to_bits() - 1);
        let (m, k) = parts(prev);
        // midpoint of prev and the next step: (2m+1) * 2^(k-1)
        match compare(&n, e, &Big::from_u64(2 * m + 1), k - 1) {
            Ordering::Less => false,
            Ordering::Equal => even,
            Ordering::Greater => true,
        }
    };
    let below = if v.is_infinite() {
        true
    } else {
        let (m, k) = parts(v);
        match compare(&n, e, &Big::from_u64(2 * m + 1), k - 1) {
            Ordering::Greater => false,
            Ordering::Equal => even,
            Ordering::Less => true,
        }
    };
    above && below
}

/// Exact decimal of the midpoint between v and the next double (`how` 0), or one last digit off.
pub fn midpoint_decimal(v: f64, how: usize) -> String {
    let (m, k) = parts(v.abs());
    let mut n = Big::from_u64(2 * m + 1);
    let k = k - 1;
    let mut t;
    if k >= 0 {
        n.shl(k as usize);
        t = n.decimal();
        t.push_str(".0");
    } else {
        // m / 2^j = m * 5^j / 10^j
        let j = (-k) as usize;
        for _ in 0..j {
            n.mul_add(5, 0);
        }
        let d = n.decimal();
        let d = format!("{}{}", "0".repeat((j + 1).saturating_sub(d.len())), d);
        let cut = d.len() - j;
        t = format!("{}.{}", &d[..cut], &d[cut..]);
    }
    match how {
        0 => t,
        1 => {
            t.push('1');
            t
        }
        _ => {
            // just below: replace the final 5 (or 0) by a smaller digit
            let mut b = t.into_bytes();
            let i = b.len() - 1;
            if b[i] > b'0' {
                b[i] -= 1;
                b.push(b'9');
            }
            String::from_utf8(b).unwrap()
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn nearest() {
        for t in ["0.1", "1e23", "5e-324", "2e-324", "3e-324", "1.7976931348623157e308", "1e400",
            "9007199254740993", "123456789012345678901234567890", "0.000", "1_0.5", "2.2250738585072011e-308"] {
            let v: f64 = t.replace('_', "").parse().unwrap();
            assert!(is_nearest(t, v), "{t}");
            assert!(!is_nearest(t, f64::from_bits(v.to_bits() + 1)) , "{t}");
            if v > 0.0 { assert!(!is_nearest(t, f64::from_bits(v.to_bits() - 1)), "{t}"); }
        }
        for v in [1.0, 0.1, 1e300, 5e-324, 1e-310] {
            for h in 0..3 {
                let t = midpoint_decimal(v, h);
                let w: f64 = t.parse().unwrap();
                assert!(is_nearest(&t, w), "{t}");
            }
        }
    }
}
