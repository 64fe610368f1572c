//! Small dense linear algebra, written independently of the code under test.

/// Solve `a x = b` (row-major, size m) by Gaussian elimination with partial
/// pivoting. Returns None when a pivot vanishes.
pub fn solve(m: usize, a: &mut [f64], b: &mut [f64]) -> Option<()> {
    for k in 0..m {
        let mut p = k;
        for i in k + 1..m {
            if a[i * m + k].abs() > a[p * m + k].abs() {
                p = i;
            }
        }
        let piv = a[p * m + k];
        if piv == 0.0 || !piv.is_finite() {
            return None;
        }
        if p != k {
            for j in 0..m {
                a.swap(p * m + j, k * m + j);
            }
            b.swap(p, k);
        }
        for i in k + 1..m {
            let l = a[i * m + k] / piv;
            if l != 0.0 {
                for j in k + 1..m {
                    a[i * m + j] -= l * a[k * m + j];
                }
                b[i] -= l * b[k];
            }
        }
    }
    for k in (0..m).rev() {
        let mut s = b[k];
        for j in k + 1..m {
            s -= a[k * m + j] * b[j];
        }
        b[k] = s / a[k * m + k];
    }
    Some(())
}

pub fn matmul(n: usize, a: &[f64], b: &[f64]) -> Vec<f64> {
    let mut c = vec![0.0; n * n];
    for i in 0..n {
        for k in 0..n {
            let x = a[i * n + k];
            for j in 0..n {
                c[i * n + j] += x * b[k * n + j];
            }
        }
    }
    c
}

/// Orthogonal matrix as a product of Givens rotations; `angle(i)` supplies the
/// i-th angle.
pub fn givens(n: usize, angle: impl Fn(usize) -> f64) -> Vec<f64> {
    let mut q = vec![0.0; n * n];
    for i in 0..n {
        q[i * n + i] = 1.0;
    }
    let mut k = 0;
    for i in 0..n {
        for j in i + 1..n {
            let (s, c) = angle(k).sin_cos();
            k += 1;
            for r in 0..n {
                let x = q[r * n + i];
                let y = q[r * n + j];
                q[r * n + i] = c * x - s * y;
                q[r * n + j] = s * x + c * y;
            }
        }
    }
    q
}

pub fn matvec(n: usize, a: &[f64], x: &[f64]) -> Vec<f64> {
    (0..n)
        .map(|i| (0..n).map(|j| a[i * n + j] * x[j]).sum())
        .collect()
}
pub fn matvec_t(n: usize, a: &[f64], x: &[f64]) -> Vec<f64> {
    (0..n)
        .map(|i| (0..n).map(|j| a[j * n + i] * x[j]).sum())
        .collect()
}

/// Root mean square of `d[i] / w[i]`.
pub fn wrms(d: &[f64], w: &[f64]) -> f64 {
    let s: f64 = d.iter().zip(w).map(|(a, b)| (a / b) * (a / b)).sum();
    (s / d.len() as f64).sqrt()
}
