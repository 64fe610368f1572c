//! C16, C17: linear systems.
use crate::cplx::*;
use cyphus_diffeq::verif;
use engine::runner::{Def, Env, Obs};
use ndarray::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Form {
    Dense,
    /// small integers, many ties and zeros
    Small,
    /// row-permuted triangular
    Perm,
    /// mostly zero
    Sparse,
    /// rows of very different size
    Rows,
    /// columns of very different size
    Cols,
    /// zero or tiny diagonal
    Diag,
    /// shifted multiple of the identity, as the implicit method builds
    Shift,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Flaw {
    None,
    ZeroCol(usize),
    ZeroCols(usize, usize),
    ZeroRow(usize),
    /// upper triangular with a zero on the diagonal, rows permuted
    ZeroPivot(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    n: usize,
    form: Form,
    flaw: Flaw,
    complex: bool,
    /// where the entries are exactly real or imaginary
    axis: bool,
    c: Vec<f64>,
    /// log10 of the overall magnitude
    mag: f64,
    lb: usize,
    ub: usize,
    /// 0 Hessenberg, 1 banded, 2 reduction
    what: u8,
    low: usize,
    high: usize,
    /// extra room behind the right-hand side and around the matrix
    pad: usize,
}

impl Case {
    fn k(&self, i: usize) -> f64 {
        let m = self.c.len();
        self.c[(i * 13 + i / m * 5) % m]
    }
    fn perm(&self) -> Vec<usize> {
        let mut p: Vec<usize> = (0..self.n).collect();
        for i in (1..self.n).rev() {
            let j = ((self.k(i + 900).abs() * 7919.0) as usize) % (i + 1);
            p.swap(i, j);
        }
        p
    }
    /// the matrix, entries outside the band (lb below, ub above) zero
    fn matrix(&self, lb: usize, ub: usize) -> Vec<Z> {
        let n = self.n;
        let mut a = vec![z(0.0, 0.0); n * n];
        let s = 10f64.powf(self.mag);
        let mut e = 0;
        for i in 0..n {
            for j in 0..n {
                e += 1;
                let (x, y) = (self.k(e), self.k(e + 500));
                let mut v = match self.form {
                    Form::Small => z((x * 3.0).round(), (y * 3.0).round()),
                    Form::Sparse if x.abs() < 0.6 && i != j => z(0.0, 0.0),
                    Form::Rows => {
                        let r = 10f64.powf(6.0 * self.k(i + 700));
                        z(x * r, y * r)
                    }
                    Form::Cols => {
                        let r = 10f64.powf(6.0 * self.k(j + 700));
                        z(x * r, y * r)
                    }
                    Form::Diag if i == j => z(if x > 0.0 { 0.0 } else { 1e-14 * x }, 0.0),
                    Form::Shift => {
                        z(x, 0.0) + if i == j { z(3.6 + self.k(800).abs(), 3.05) } else { z(0.0, 0.0) }
                    }
                    Form::Perm if j < i => z(0.0, 0.0),
                    _ => z(x, y),
                };
                if self.axis && self.form != Form::Shift {
                    if self.k(e + 300) > 0.0 {
                        v.im = 0.0;
                    } else if self.complex {
                        v.re = 0.0;
                    }
                }
                if !self.complex {
                    v.im = 0.0;
                }
                a[i * n + j] = z(v.re * s, v.im * s);
            }
        }
        if let Flaw::ZeroPivot(k) = self.flaw {
            let k = k % n;
            for i in 0..n {
                for j in 0..n {
                    if j < i || (i == k && j == k) {
                        a[i * n + j] = z(0.0, 0.0);
                    }
                }
            }
        }
        if self.form == Form::Perm || matches!(self.flaw, Flaw::ZeroPivot(_)) {
            // row exchanges that stay inside the band
            if lb + 1 >= n && ub + 1 >= n {
                let p = self.perm();
                let b = a.clone();
                for i in 0..n {
                    for j in 0..n {
                        a[p[i] * n + j] = b[i * n + j];
                    }
                }
            } else if lb >= 1 {
                for i in 0..n - 1 {
                    if self.k(i + 850) > 0.0 {
                        for j in 0..n {
                            a.swap(i * n + j, (i + 1) * n + j);
                        }
                    }
                }
            }
        }
        for i in 0..n {
            for j in 0..n {
                if i > j + lb || j > i + ub {
                    a[i * n + j] = z(0.0, 0.0);
                }
            }
        }
        match self.flaw {
            Flaw::ZeroCol(k) => (0..n).for_each(|i| a[i * n + k % n] = z(0.0, 0.0)),
            Flaw::ZeroCols(k, l) => (0..n).for_each(|i| {
                a[i * n + k % n] = z(0.0, 0.0);
                a[i * n + l % n] = z(0.0, 0.0);
            }),
            Flaw::ZeroRow(k) => (0..n).for_each(|j| a[k % n * n + j] = z(0.0, 0.0)),
            _ => {}
        }
        a
    }
    fn rhs(&self, r: usize) -> Vec<Z> {
        (0..self.n)
            .map(|i| {
                let y = if self.complex { self.k(i + 1100 + 31 * r) } else { 0.0 };
                z(self.k(i + 1000 + 17 * r), y)
            })
            .collect()
    }
}

const SENTINEL: f64 = 1.234567e11;

/// what a solver made of one system
struct Solved {
    code: usize,
    x: Vec<Vec<Z>>,
    touched: bool,
}

fn split(n: usize, m: usize, a: &[Z], fill: f64) -> (Array2<f64>, Array2<f64>) {
    let mut r = Array2::from_elem((m, m), fill);
    let mut i_ = Array2::from_elem((m, m), fill);
    for i in 0..n {
        for j in 0..n {
            r[[i, j]] = a[i * n + j].re;
            i_[[i, j]] = a[i * n + j].im;
        }
    }
    (r, i_)
}

/// Solve for two right-hand sides through `solve(br, bi)`.
fn solutions(c: &Case, mut solve: impl FnMut(&mut Array1<f64>, &mut Array1<f64>)) -> (Vec<Vec<Z>>, bool) {
    let n = c.n;
    let mut out = vec![];
    let mut touched = false;
    for r in 0..2 {
        let b = c.rhs(r);
        let mut br = Array1::from_elem(n + c.pad, SENTINEL);
        let mut bi = Array1::from_elem(n + c.pad, SENTINEL);
        for i in 0..n {
            br[i] = b[i].re;
            bi[i] = b[i].im;
        }
        solve(&mut br, &mut bi);
        for i in n..n + c.pad {
            touched |= br[i] != SENTINEL || bi[i] != SENTINEL;
        }
        out.push(
            (0..n).map(|i| z(br[i], if c.complex { bi[i] } else { 0.0 })).collect::<Vec<Z>>(),
        );
    }
    (out, touched)
}

fn dense(c: &Case, a: &[Z]) -> Solved {
    let n = c.n;
    let m = n + c.pad;
    let (mut ar, mut ai) = split(n, m, a, SENTINEL);
    let mut ip = Array1::<i32>::zeros(m);
    let code = if c.complex {
        verif::decc(n, ar.view_mut(), ai.view_mut(), ip.view_mut())
    } else {
        verif::dec(n, ar.view_mut(), ip.view_mut())
    };
    let mut touched = false;
    for i in 0..m {
        for j in 0..m {
            if (i >= n || j >= n) && (ar[[i, j]] != SENTINEL || ai[[i, j]] != SENTINEL) {
                touched = true;
            }
        }
    }
    if code != 0 {
        return Solved { code, x: vec![], touched };
    }
    let (x, t) = solutions(c, |br, bi| {
        if c.complex {
            verif::solc(n, ar.view(), ai.view(), br.view_mut(), bi.view_mut(), ip.view())
        } else {
            verif::sol(n, ar.view(), br.view_mut(), ip.view())
        }
    });
    Solved { code, x, touched: touched || t }
}

fn hessenberg(c: &Case, a: &[Z], lb: usize) -> Solved {
    let n = c.n;
    let (mut ar, mut ai) = split(n, n, a, 0.0);
    // whatever lies below the band does not belong to the matrix
    for i in 0..n {
        for j in 0..n {
            if i > j + lb && c.pad > 0 {
                ar[[i, j]] = 7.0 + c.k(i + j);
                ai[[i, j]] = -5.0;
            }
        }
    }
    let mut ip = Array1::<i32>::zeros(n);
    let code = if c.complex {
        verif::dechc(n, ar.view_mut(), ai.view_mut(), lb, ip.view_mut())
    } else {
        verif::dech(n, ar.view_mut(), lb, ip.view_mut())
    };
    if code != 0 {
        return Solved { code, x: vec![], touched: false };
    }
    let (x, touched) = solutions(c, |br, bi| {
        if c.complex {
            verif::solhc(n, ar.view(), ai.view(), lb, br.view_mut(), bi.view_mut(), ip.view())
        } else {
            verif::solh(n, ar.view(), lb, br.view_mut(), ip.view())
        }
    });
    Solved { code, x, touched }
}

fn banded(c: &Case, a: &[Z], lb: usize, ub: usize) -> Solved {
    let n = c.n;
    let md = lb + ub;
    let rows = 2 * lb + ub + 1;
    // unused places hold garbage
    let fill = if c.pad > 0 { 3.0e5 } else { 0.0 };
    let mut ar = Array2::from_elem((rows, n), fill);
    let mut ai = Array2::from_elem((rows, n), fill);
    for i in 0..n {
        for j in 0..n {
            if i <= j + lb && j <= i + ub {
                ar[[i + md - j, j]] = a[i * n + j].re;
                ai[[i + md - j, j]] = a[i * n + j].im;
            }
        }
    }
    let mut ip = Array1::<i32>::zeros(n);
    let code = if c.complex {
        verif::decbc(n, ar.view_mut(), ai.view_mut(), lb, ub, ip.view_mut())
    } else {
        verif::decb(n, ar.view_mut(), lb, ub, ip.view_mut())
    };
    if code != 0 {
        return Solved { code, x: vec![], touched: false };
    }
    let (x, touched) = solutions(c, |br, bi| {
        if c.complex {
            verif::solbc(n, ar.view(), ai.view(), lb, ub, br.view_mut(), bi.view_mut(), ip.view())
        } else {
            verif::solb(n, ar.view(), lb, ub, br.view_mut(), ip.view())
        }
    });
    Solved { code, x, touched }
}

/// Number of the first column without a pivot, where that is clear.
fn stage(n: usize, a: &[Z]) -> Option<usize> {
    let mut a = a.to_vec();
    // entries that are differences: a zero there may be due to rounding
    let mut rounded = vec![false; n * n];
    for k in 0..n {
        // columns are judged by their own size
        let size = (0..n).map(|i| a[i * n + k].abs()).fold(0.0, f64::max);
        if (k..n).any(|i| rounded[i * n + k] && a[i * n + k].abs() <= 1e-6 * size) {
            return None;
        }
        let p = (k..n).fold(k, |m, i| if a[i * n + k].abs() > a[m * n + k].abs() { i } else { m });
        let top = a[p * n + k].abs();
        if top == 0.0 {
            return Some(k + 1);
        }
        if top < 1e-6 * size {
            return None;
        }
        for j in 0..n {
            a.swap(p * n + j, k * n + j);
            rounded.swap(p * n + j, k * n + j);
        }
        let inv = a[k * n + k].inv();
        for i in k + 1..n {
            let f = a[i * n + k] * inv;
            if f.abs() == 0.0 {
                continue;
            }
            for j in k..n {
                rounded[i * n + j] |= rounded[k * n + j] || a[k * n + j].abs() != 0.0;
                a[i * n + j] = a[i * n + j] - f * a[k * n + j];
            }
        }
    }
    None
}

fn judge(c: &Case, a: &[Z], s: &Solved, obs: &mut Obs) -> Result<(), String> {
    let n = c.n;
    if s.touched {
        return Err("entries beyond the system were modified".into());
    }
    if c.flaw != Flaw::None {
        obs.label("singular by construction");
        if s.code == 0 {
            return Err(format!("singular matrix ({:?}) not reported", c.flaw));
        }
        // zero whatever the order of elimination
        let want = match c.flaw {
            Flaw::ZeroCol(k) => k % n + 1,
            Flaw::ZeroCols(k, l) => (k % n).min(l % n) + 1,
            Flaw::ZeroRow(_) => n,
            _ => 0,
        };
        if let Some(k) = stage(n, a).filter(|k| *k == want) {
            obs.label("known stage");
            if s.code != k {
                return Err(format!("singular at stage {} reported as {}", k, s.code));
            }
        }
        return Ok(());
    }
    let inv = inverse(n, a);
    let an = norm(n, a);
    let cond = inv.as_ref().map(|(i, _)| norm(n, i) * an).unwrap_or(f64::INFINITY);
    if s.code != 0 {
        if cond < 1e10 {
            return Err(format!("nonsingular matrix (condition {:.1e}) reported singular ({})", cond, s.code));
        }
        obs.label("reported singular, condition at least 1e10");
        return Ok(());
    }
    obs.label(if cond < 1e4 {
        "condition below 1e4"
    } else if cond < 1e10 {
        "condition 1e4..1e10"
    } else {
        "condition above 1e10"
    });
    if cond > 1e14 {
        return Ok(());
    }
    let growth = inv.map(|(_, g)| g).unwrap_or(1.0);
    for (r, x) in s.x.iter().enumerate() {
        let b = c.rhs(r);
        let xn = x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let bn = b.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        if !xn.is_finite() {
            return Err("solution is not finite".into());
        }
        let mut res = 0.0f64;
        for i in 0..n {
            let mut t = z(-b[i].re, -b[i].im);
            for j in 0..n {
                t = t + a[i * n + j] * x[j];
            }
            res = res.max(t.abs());
        }
        let q = res / (f64::EPSILON * n as f64 * growth * (an * xn + bn) + 1e-300);
        obs.maxi("residual / (n eps growth (|A||x| + |b|))", q);
        if !(q <= 20.0) {
            return Err(format!("residual {:.3e} is {:.1} times n eps |A||x|", res, q));
        }
    }
    Ok(())
}

fn c16_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let a = c.matrix(c.n, c.n);
    obs.nontrivial = c.n > 1;
    obs.label(if c.complex { "complex" } else { "real" });
    obs.label(&format!("{:?}", c.form));
    let s = dense(c, &a);
    judge(c, &a, &s, obs)
}

fn matmul(n: usize, a: &[f64], b: &[f64]) -> Vec<f64> {
    engine::la::matmul(n, a, b)
}

fn reduction(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let n = c.n;
    let low = c.low % n;
    let igh = (low + 1 + c.high % (n - low)).min(n);
    let a: Vec<f64> = {
        let m = c.matrix(n, n);
        let mut a: Vec<f64> = m.iter().map(|v| v.re).collect();
        // rows and columns outside [low, igh) are already triangular
        for i in 0..n {
            for j in 0..n {
                if i > j && (j < low || i >= igh) {
                    a[i * n + j] = 0.0;
                }
            }
        }
        a
    };
    obs.label(if low == 0 && igh == n { "reduction, full" } else { "reduction, part" });
    let mut h = Array2::from_shape_vec((n, n), a.clone()).unwrap();
    let mut inter = Array1::<i32>::from_elem(n, -1);
    verif::elmhes(n, low, igh, h.view_mut(), inter.view_mut());
    // transformation: product over m of (exchange m <-> inter[m]) and the multipliers
    let mut hess = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            if i <= j + 1 {
                hess[i * n + j] = h[[i, j]];
            }
        }
    }
    // a = X hess X^-1 with X = P_1 L_1 P_2 L_2 ...
    let mut x = vec![0.0; n * n];
    for i in 0..n {
        x[i * n + i] = 1.0;
    }
    for m in low + 1..igh.saturating_sub(1).max(low + 1) {
        let r = inter[m];
        if r < m as i32 || r as usize >= igh {
            return Err(format!("recorded exchange {} of column {} is out of range", r, m));
        }
        let r = r as usize;
        for i in 0..n {
            x.swap(i * n + m, i * n + r);
        }
        let y: Vec<f64> = (0..n).map(|i| if i > m && i < igh { h[[i, m - 1]] } else { 0.0 }).collect();
        for i in m + 1..igh {
            if y[i].abs() > 1.0 + 1e-12 {
                return Err(format!("multiplier {} of row {} exceeds 1", y[i], i));
            }
            for k in 0..n {
                x[k * n + m] += y[i] * x[k * n + i];
            }
        }
    }
    let l = matmul(n, &a, &x);
    let r = matmul(n, &x, &hess);
    let big = a.iter().chain(&hess).fold(0.0f64, |m, v| m.max(v.abs()));
    let xb = x.iter().fold(1.0f64, |m, v| m.max(v.abs()));
    let mut worst = 0.0f64;
    for i in 0..n * n {
        worst = worst.max((l[i] - r[i]).abs());
    }
    let q = worst / (f64::EPSILON * (n * n) as f64 * big * xb + 1e-300);
    obs.maxi("|AX - XH| / (n^2 eps max|A| max|X|)", q);
    if !(q <= 20.0) {
        return Err(format!("A X and X H differ by {:.2e} ({:.1} allowances)", worst, q));
    }
    Ok(())
}

fn c17_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let n = c.n;
    obs.nontrivial = n > 1;
    let lb = c.lb.min(n - 1);
    let ub = c.ub.min(n - 1);
    match c.what {
        0 => {
            obs.label(if c.complex { "Hessenberg, complex" } else { "Hessenberg, real" });
            obs.label(&format!("Hessenberg, {} subdiagonals", lb.min(3)));
            let a = c.matrix(lb, n);
            let s = hessenberg(c, &a, lb);
            judge(c, &a, &s, obs)
        }
        1 => {
            obs.label(if c.complex { "banded, complex" } else { "banded, real" });
            let a = c.matrix(lb, ub);
            let s = banded(c, &a, lb, ub);
            judge(c, &a, &s, obs)
        }
        _ => {
            let mut c = c.clone();
            c.complex = false;
            c.flaw = Flaw::None;
            reduction(&c, obs)
        }
    }
}

fn cases(nmax: usize) -> BoxedStrategy<Case> {
    let form = prop_oneof![
        3 => Just(Form::Dense),
        2 => Just(Form::Small),
        2 => Just(Form::Perm),
        2 => Just(Form::Sparse),
        1 => Just(Form::Rows),
        1 => Just(Form::Cols),
        2 => Just(Form::Diag),
        2 => Just(Form::Shift),
    ];
    let flaw = prop_oneof![
        12 => Just(Flaw::None),
        1 => (0usize..nmax).prop_map(Flaw::ZeroCol),
        1 => Just(Flaw::ZeroCol(0)),
        1 => (0usize..nmax, 0usize..nmax).prop_map(|(k, l)| Flaw::ZeroCols(k, l)),
        1 => (0usize..nmax).prop_map(Flaw::ZeroRow),
        1 => (0usize..nmax).prop_map(Flaw::ZeroPivot),
    ];
    (
        (1usize..=nmax, form, flaw, any::<bool>(), prop::bool::weighted(0.4)),
        prop::collection::vec((-100i32..=100).prop_map(|v| v as f64 / 100.0), 97),
        prop_oneof![2 => Just(0.0), 1 => (-20i32..=20).prop_map(|v| v as f64)],
        (0usize..nmax, 0usize..nmax, 0u8..3, 0usize..nmax, 0usize..nmax, 0usize..4),
    )
        .prop_map(|((n, form, flaw, complex, axis), c, mag, (lb, ub, what, low, high, pad))| Case {
            n,
            form,
            flaw,
            complex,
            axis,
            c,
            mag,
            lb,
            ub,
            what,
            low: if low % 3 != 0 { 0 } else { low },
            high: if high % 3 != 0 { n - 1 } else { high },
            pad,
        })
        .boxed()
}

const ASSUME: &[&str] = &[
    "residual bound 20 n eps growth (|A||x| + |b|) in the maximum norm, growth measured by an independent elimination",
    "matrices above condition 1e10 may be reported singular; residuals are not judged above 1e14",
];

pub fn c16(env: &Env) -> i32 {
    engine::runner::run(
        env,
        &Def {
            id: "C16",
            rule: "a system of at least two unknowns",
            quick: 400000,
            thorough: 10000000,
            strategy: &|| cases(14),
            case: &c16_case,
            assumptions: ASSUME,
        },
    )
}

pub fn c17(env: &Env) -> i32 {
    engine::runner::run(
        env,
        &Def {
            id: "C17",
            rule: "a matrix of at least two rows",
            quick: 600000,
            thorough: 10000000,
            strategy: &|| cases(12),
            case: &c17_case,
            assumptions: ASSUME,
        },
    )
}
