//! Just enough complex arithmetic for the reference computations.
use std::ops::{Add, Mul, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Z {
    pub re: f64,
    pub im: f64,
}

pub fn z(re: f64, im: f64) -> Z {
    Z { re, im }
}

impl Z {
    pub fn abs(self) -> f64 {
        self.re.hypot(self.im)
    }
    pub fn inv(self) -> Z {
        // scaled so that the squares cannot overflow
        let s = self.re.abs().max(self.im.abs());
        let (a, b) = (self.re / s, self.im / s);
        let d = (a * a + b * b) * s;
        z(a / d, -b / d)
    }
}
impl Add for Z {
    type Output = Z;
    fn add(self, o: Z) -> Z {
        z(self.re + o.re, self.im + o.im)
    }
}
impl Sub for Z {
    type Output = Z;
    fn sub(self, o: Z) -> Z {
        z(self.re - o.re, self.im - o.im)
    }
}
impl Mul for Z {
    type Output = Z;
    fn mul(self, o: Z) -> Z {
        z(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    }
}

/// Row sum norm.
pub fn norm(n: usize, a: &[Z]) -> f64 {
    (0..n)
        .map(|i| (0..n).map(|j| a[i * n + j].abs()).sum::<f64>())
        .fold(0.0, f64::max)
}

/// Inverse by Gauss-Jordan elimination with partial pivoting, with the growth
/// of the entries on the way. None when a pivot vanishes.
pub fn inverse(n: usize, m: &[Z]) -> Option<(Vec<Z>, f64)> {
    let mut a = m.to_vec();
    let mut b = vec![z(0.0, 0.0); n * n];
    for i in 0..n {
        b[i * n + i] = z(1.0, 0.0);
    }
    let big = a.iter().fold(0.0f64, |x, v| x.max(v.abs()));
    let mut most = big;
    for k in 0..n {
        let mut p = k;
        for i in k + 1..n {
            if a[i * n + k].abs() > a[p * n + k].abs() {
                p = i;
            }
        }
        if a[p * n + k].abs() == 0.0 {
            return None;
        }
        for j in 0..n {
            a.swap(p * n + j, k * n + j);
            b.swap(p * n + j, k * n + j);
        }
        let d = a[k * n + k].inv();
        for i in k + 1..n {
            let l = a[i * n + k] * d;
            for j in 0..n {
                if j >= k {
                    let v = a[i * n + j] - l * a[k * n + j];
                    a[i * n + j] = v;
                    most = most.max(v.abs());
                }
                b[i * n + j] = b[i * n + j] - l * b[k * n + j];
            }
        }
    }
    for k in (0..n).rev() {
        let d = a[k * n + k].inv();
        for j in 0..n {
            let mut s = b[k * n + j];
            for l in k + 1..n {
                s = s - a[k * n + l] * b[l * n + j];
            }
            b[k * n + j] = s * d;
        }
    }
    Some((b, most / big))
}
