//! Problem families. A `Prob` is plain data (what gets generated, shrunk and
//! saved); `Sys` is the compiled problem with right-hand side, Jacobian and,
//! for some families, the exact solution.
//!
//! All families are written in a local time `s = kappa * sigma * (t - t0)` that
//! starts at 0 and grows, and in a normalized state `x = u / amp`.
use crate::la;
use serde::{Deserialize, Serialize};

/// largest number of components
pub const WIDTH: usize = 64;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    /// normal matrix with smooth forcing; exact solution known
    Lin,
    /// rotated decoupled nonlinear scalars; exact solution known
    Diag,
    /// right-hand side depends on time only; exact solution known
    Quad,
    /// tanh network
    Net,
    Vdp,
    Lotka,
    Pendulum,
    Brussel,
    Robertson,
    Lorenz,
    /// mass-action network conserving the total
    Conserve,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prob {
    pub kind: Kind,
    pub n: usize,
    /// raw coefficients in [-1, 1]
    pub c: Vec<f64>,
    /// log10 of the largest rate (stiffness)
    pub rate: f64,
    /// log10 of the state magnitude
    pub amp: f64,
    /// log10 of the inverse time unit
    pub kappa: f64,
    /// length of the interval in local time
    pub span: f64,
    /// start time in units of 1/kappa
    pub t0: f64,
    /// integrate towards smaller t
    pub back: bool,
    /// for Lin: start on the smooth solution (no transient)
    pub smooth: bool,
}

impl Prob {
    pub fn c(&self, i: usize) -> f64 {
        if self.c.is_empty() {
            0.0
        } else {
            self.c[i % self.c.len()]
        }
    }
    /// coefficient mapped to [lo, hi]
    pub fn r(&self, i: usize, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * 0.5 * (self.c(i) + 1.0)
    }
}

#[derive(Clone)]
enum Body {
    Lin { m: Vec<f64>, q: Vec<f64>, blocks: Vec<(f64, f64)>, phi: Vec<[f64; 4]>, w0: Vec<f64> },
    Diag { q: Vec<f64>, ty: Vec<(u8, f64)>, w0: Vec<f64> },
    Quad { co: Vec<[f64; 5]> },
    Net { a: Vec<f64>, b: Vec<f64>, d: Vec<[f64; 3]> },
    Vdp { mu: f64 },
    Lotka { p: [f64; 4] },
    Pendulum { p: [f64; 4] },
    Brussel { p: [f64; 2], d: f64 },
    Robertson { p: [f64; 3] },
    Lorenz { p: [f64; 3] },
    Conserve { k: Vec<(usize, usize, f64, bool)> },
}

#[derive(Clone)]
pub struct Sys {
    pub n: usize,
    pub amp: f64,
    pub kappa: f64,
    pub sigma: f64,
    pub t0: f64,
    pub t1: f64,
    pub span: f64,
    pub u0: Vec<f64>,
    body: Body,
    pub kind: Kind,
}

/// cheap deterministic variation of an index so that reused raw coefficients
/// do not line up
fn ix(i: usize, salt: usize) -> usize {
    i.wrapping_mul(7).wrapping_add(salt * 5 + i / 11)
}

impl Sys {
    pub fn new(p: &Prob) -> Sys {
        let amp = 10f64.powf(p.amp);
        let kappa = 10f64.powf(p.kappa);
        let sigma = if p.back { -1.0 } else { 1.0 };
        let t0 = p.t0 / kappa;
        let t1 = t0 + sigma * p.span / kappa;
        let rate = 10f64.powf(p.rate);
        let mut n = p.n.max(1);
        let x0: Vec<f64>;
        let body = match p.kind {
            Kind::Lin => {
                let q = la::givens(n, |i| std::f64::consts::PI * p.c(ix(i, 1)));
                let mut blocks = vec![];
                let nb = (n + 1) / 2;
                for b in 0..nb {
                    let z = p.r(ix(b, 2), 0.0, 1.0);
                    // decay rates spread logarithmically over [0 or 0.1, rate]
                    let a = if b == 0 {
                        rate
                    } else if p.c(ix(b, 3)) > 0.7 {
                        0.0
                    } else {
                        0.1 * (10.0 * rate).powf(z)
                    };
                    let w = p.c(ix(b, 4)) * 3.0;
                    blocks.push((a, w));
                }
                let mut bm = vec![0.0; n * n];
                for b in 0..nb {
                    let (a, w) = blocks[b];
                    let i = 2 * b;
                    bm[i * n + i] = -a;
                    if i + 1 < n {
                        bm[(i + 1) * n + i + 1] = -a;
                        bm[i * n + i + 1] = w;
                        bm[(i + 1) * n + i] = -w;
                    }
                }
                // M = Q B Q^T
                let qb = la::matmul(n, &q, &bm);
                let mut qt = vec![0.0; n * n];
                for i in 0..n {
                    for j in 0..n {
                        qt[i * n + j] = q[j * n + i];
                    }
                }
                let m = la::matmul(n, &qb, &qt);
                let phi: Vec<[f64; 4]> = (0..n)
                    .map(|i| {
                        [
                            p.c(ix(i, 6)),
                            p.c(ix(i, 7)),
                            p.r(ix(i, 8), 0.2, 2.5),
                            3.0 * p.c(ix(i, 9)),
                        ]
                    })
                    .collect();
                let w0: Vec<f64> = (0..n)
                    .map(|i| if p.smooth { 0.0 } else { p.c(ix(i, 10)) })
                    .collect();
                let qw = la::matvec(n, &q, &w0);
                x0 = (0..n).map(|i| phi[i][0] + phi[i][1] * phi[i][3].sin() + qw[i]).collect();
                Body::Lin { m, q, blocks, phi, w0 }
            }
            Kind::Diag => {
                let q = la::givens(n, |i| std::f64::consts::PI * p.c(ix(i, 1)));
                let mut ty = vec![];
                let mut w0 = vec![];
                for i in 0..n {
                    let z = p.r(ix(i, 2), 0.0, 1.0);
                    let k = if i == 0 { rate } else { 0.1 * (10.0 * rate).powf(z) };
                    match ((p.c(ix(i, 3)) + 1.0) * 2.0) as usize {
                        0 => {
                            ty.push((0u8, k));
                            w0.push(1.5 * p.c(ix(i, 4)));
                        }
                        1 => {
                            ty.push((1, k));
                            w0.push(p.r(ix(i, 4), 0.3, 1.6));
                        }
                        2 => {
                            ty.push((2, p.c(ix(i, 5))));
                            w0.push(p.c(ix(i, 4)));
                        }
                        _ => {
                            ty.push((3, k));
                            w0.push(p.r(ix(i, 4), 0.1, 1.5));
                        }
                    }
                }
                x0 = la::matvec(n, &q, &w0);
                Body::Diag { q, ty, w0 }
            }
            Kind::Quad => {
                let co = (0..n)
                    .map(|i| {
                        [
                            p.c(ix(i, 1)),
                            p.c(ix(i, 2)),
                            p.c(ix(i, 3)) * 0.2,
                            p.r(ix(i, 4), 0.2, 3.0),
                            3.0 * p.c(ix(i, 5)),
                        ]
                    })
                    .collect();
                x0 = (0..n).map(|i| p.c(ix(i, 6))).collect();
                Body::Quad { co }
            }
            Kind::Net => {
                let sc = 1.5 / (n as f64).sqrt();
                let a = (0..n * n).map(|i| sc * p.c(ix(i, 1))).collect();
                let b = (0..n * n).map(|i| sc * p.c(ix(i, 2))).collect();
                let d = (0..n)
                    .map(|i| {
                        [
                            p.c(ix(i, 3)),
                            p.c(ix(i, 4)),
                            if i == 0 { rate } else { p.r(ix(i, 5), 0.0, 1.0) },
                        ]
                    })
                    .collect();
                x0 = (0..n).map(|i| p.c(ix(i, 6))).collect();
                Body::Net { a, b, d }
            }
            Kind::Vdp => {
                n = 2;
                x0 = vec![p.r(3, 0.5, 2.5), p.c(5)];
                Body::Vdp { mu: rate }
            }
            Kind::Lotka => {
                n = 2;
                x0 = vec![p.r(3, 0.4, 2.0), p.r(5, 0.4, 2.0)];
                Body::Lotka {
                    p: [p.r(6, 0.5, 1.5), p.r(7, 0.5, 1.5), p.r(8, 0.5, 1.5), p.r(9, 0.5, 1.5)],
                }
            }
            Kind::Pendulum => {
                n = 2;
                x0 = vec![2.0 * p.c(3), 2.0 * p.c(5)];
                Body::Pendulum { p: [p.r(6, 0.5, 4.0), p.r(7, 0.0, 0.5), p.c(8), p.r(9, 0.3, 2.0)] }
            }
            Kind::Brussel => {
                let m = (p.n.max(2)) / 2;
                n = 2 * m;
                x0 = (0..n).map(|i| p.r(ix(i, 3), 0.5, 2.5)).collect();
                Body::Brussel { p: [p.r(6, 0.6, 1.4), p.r(7, 1.0, 3.0)], d: 0.02 * rate }
            }
            Kind::Robertson => {
                n = 3;
                x0 = vec![1.0, 0.0, 0.0];
                Body::Robertson { p: [p.r(6, 0.02, 0.2), 10.0 * rate, rate * rate.sqrt()] }
            }
            Kind::Lorenz => {
                n = 3;
                x0 = vec![p.c(3), p.c(4) + 1.0, p.r(5, 0.0, 2.0)];
                Body::Lorenz { p: [p.r(6, 5.0, 12.0), p.r(7, 5.0, 28.0), p.r(8, 1.0, 3.0)] }
            }
            Kind::Conserve => {
                n = p.n.max(2);
                let m = n + 2;
                let k = (0..m)
                    .map(|i| {
                        let from = i % n;
                        let d = 1 + ((p.c(ix(i, 2)) + 1.0) * 0.499 * (n - 1) as f64) as usize;
                        let to = (from + d) % n;
                        let z = p.r(ix(i, 3), 0.0, 1.0);
                        let k = if i == 0 { rate } else { 0.1 * (10.0 * rate).powf(z) };
                        (from, to, k, p.c(ix(i, 4)) > 0.2)
                    })
                    .collect();
                x0 = (0..n).map(|i| p.r(ix(i, 5), 0.05, 1.0)).collect();
                Body::Conserve { k }
            }
        };
        let u0 = x0.iter().map(|x| x * amp).collect();
        Sys { n, amp, kappa, sigma, t0, t1, span: p.span, u0, body, kind: p.kind }
    }

    /// length of the interval
    pub fn length(&self) -> f64 {
        (self.t1 - self.t0).abs()
    }

    fn s(&self, t: f64) -> f64 {
        self.kappa * self.sigma * (t - self.t0)
    }

    /// du/dt
    pub fn f(&self, t: f64, u: &[f64], out: &mut [f64]) {
        let s = self.s(t);
        let n = self.n;
        let mut xs = [0.0f64; WIDTH];
        let ia = 1.0 / self.amp;
        for i in 0..n {
            xs[i] = u[i] * ia;
        }
        let x = &xs[..n];
        self.g(s, x, out);
        let sc = self.amp * self.kappa * self.sigma;
        for i in 0..n {
            out[i] *= sc;
        }
    }

    /// Jacobian of du/dt, row-major
    pub fn jac(&self, t: f64, u: &[f64], out: &mut [f64]) {
        let s = self.s(t);
        let n = self.n;
        let x: Vec<f64> = u.iter().map(|v| v / self.amp).collect();
        for o in out.iter_mut() {
            *o = 0.0;
        }
        self.dg(s, &x, out);
        let sc = self.kappa * self.sigma;
        for o in out.iter_mut().take(n * n) {
            *o *= sc;
        }
    }

    fn g(&self, s: f64, x: &[f64], o: &mut [f64]) {
        let n = self.n;
        match &self.body {
            Body::Lin { m, phi, .. } => {
                let mut d = [0.0f64; WIDTH];
                for i in 0..n {
                    let p = &phi[i];
                    d[i] = x[i] - (p[0] + p[1] * (p[2] * s + p[3]).sin());
                }
                for i in 0..n {
                    let p = &phi[i];
                    let mut a = p[1] * p[2] * (p[2] * s + p[3]).cos();
                    for j in 0..n {
                        a += m[i * n + j] * d[j];
                    }
                    o[i] = a;
                }
            }
            Body::Diag { q, ty, .. } => {
                let mut w = [0.0f64; WIDTH];
                for j in 0..n {
                    let mut a = 0.0;
                    for i in 0..n {
                        a += q[i * n + j] * x[i];
                    }
                    let k = ty[j].1;
                    w[j] = match ty[j].0 {
                        0 => -k * a * a * a,
                        // comes back from below zero
                        1 => k * a.abs() * (1.0 - a),
                        2 => k * s.cos() * a,
                        _ => -k * a * a.abs(),
                    };
                }
                for i in 0..n {
                    let mut a = 0.0;
                    for j in 0..n {
                        a += q[i * n + j] * w[j];
                    }
                    o[i] = a;
                }
            }
            Body::Quad { co } => {
                for i in 0..n {
                    let c = &co[i];
                    o[i] = c[0] + c[1] * (c[3] * s + c[4]).cos() + c[2] * s;
                }
            }
            Body::Net { a, b, d } => {
                let mut h = [0.0f64; WIDTH];
                for i in 0..n {
                    let mut v = d[i][0] + d[i][1] * s;
                    for j in 0..n {
                        v += b[i * n + j] * x[j];
                    }
                    h[i] = v.tanh();
                }
                for i in 0..n {
                    let mut v = -d[i][2] * x[i];
                    for j in 0..n {
                        v += a[i * n + j] * h[j];
                    }
                    o[i] = v;
                }
            }
            Body::Vdp { mu } => {
                o[0] = x[1];
                o[1] = mu * ((1.0 - x[0] * x[0]) * x[1]) - x[0];
            }
            Body::Lotka { p } => {
                o[0] = p[0] * x[0] - p[1] * x[0] * x[1];
                o[1] = -p[2] * x[1] + p[3] * x[0] * x[1];
            }
            Body::Pendulum { p } => {
                o[0] = x[1];
                o[1] = -p[0] * x[0].sin() - p[1] * x[1] + p[2] * (p[3] * s).cos();
            }
            Body::Brussel { p, d } => {
                let m = n / 2;
                for i in 0..m {
                    let (u, v) = (x[2 * i], x[2 * i + 1]);
                    let r = u * u * v;
                    o[2 * i] = p[0] + r - (p[1] + 1.0) * u;
                    o[2 * i + 1] = p[1] * u - r;
                }
                for i in 0..m {
                    for k in 0..2 {
                        let me = x[2 * i + k];
                        let mut l = 0.0;
                        if i > 0 {
                            l += x[2 * (i - 1) + k] - me;
                        }
                        if i + 1 < m {
                            l += x[2 * (i + 1) + k] - me;
                        }
                        o[2 * i + k] += d * l;
                    }
                }
            }
            Body::Robertson { p } => {
                let r1 = p[0] * x[0];
                let r2 = p[1] * x[1] * x[2];
                let r3 = p[2] * x[1] * x[1];
                o[0] = -r1 + r2;
                o[1] = r1 - r2 - r3;
                o[2] = r3;
            }
            Body::Lorenz { p } => {
                o[0] = p[0] * (x[1] - x[0]);
                o[1] = x[0] * (p[1] - x[2]) - x[1];
                o[2] = x[0] * x[1] - p[2] * x[2];
            }
            Body::Conserve { k } => {
                for v in o.iter_mut().take(n) {
                    *v = 0.0;
                }
                for &(a, b, r, quad) in k {
                    let f = if quad { r * x[a] * x[(a + 1) % n] } else { r * x[a] };
                    o[a] -= f;
                    o[b] += f;
                }
            }
        }
    }

    fn dg(&self, s: f64, x: &[f64], o: &mut [f64]) {
        let n = self.n;
        match &self.body {
            Body::Lin { m, .. } => o[..n * n].copy_from_slice(m),
            Body::Diag { q, ty, .. } => {
                let w = la::matvec_t(n, q, x);
                let mut d = vec![0.0; n];
                for j in 0..n {
                    let (t, k) = ty[j];
                    let a = w[j];
                    d[j] = match t {
                        0 => -3.0 * k * a * a,
                        1 => k * (1.0 - 2.0 * a) * if a < 0.0 { -1.0 } else { 1.0 },
                        2 => k * s.cos(),
                        _ => -2.0 * k * a.abs(),
                    };
                }
                for i in 0..n {
                    for j in 0..n {
                        let mut v = 0.0;
                        for l in 0..n {
                            v += q[i * n + l] * d[l] * q[j * n + l];
                        }
                        o[i * n + j] = v;
                    }
                }
            }
            Body::Quad { .. } => {}
            Body::Net { a, b, d } => {
                let mut h = vec![0.0; n];
                for i in 0..n {
                    let mut v = d[i][0] + d[i][1] * s;
                    for j in 0..n {
                        v += b[i * n + j] * x[j];
                    }
                    h[i] = 1.0 - v.tanh() * v.tanh();
                }
                for i in 0..n {
                    for j in 0..n {
                        let mut v = if i == j { -d[i][2] } else { 0.0 };
                        for l in 0..n {
                            v += a[i * n + l] * h[l] * b[l * n + j];
                        }
                        o[i * n + j] = v;
                    }
                }
            }
            Body::Vdp { mu } => {
                o[1] = 1.0;
                o[2] = -2.0 * mu * x[0] * x[1] - 1.0;
                o[3] = mu * (1.0 - x[0] * x[0]);
            }
            Body::Lotka { p } => {
                o[0] = p[0] - p[1] * x[1];
                o[1] = -p[1] * x[0];
                o[2] = p[3] * x[1];
                o[3] = -p[2] + p[3] * x[0];
            }
            Body::Pendulum { p } => {
                o[1] = 1.0;
                o[2] = -p[0] * x[0].cos();
                o[3] = -p[1];
            }
            Body::Brussel { p, d } => {
                let m = n / 2;
                for i in 0..m {
                    let (u, v) = (x[2 * i], x[2 * i + 1]);
                    let (r, c) = (2 * i, 2 * i + 1);
                    o[r * n + r] = 2.0 * u * v - (p[1] + 1.0);
                    o[r * n + c] = u * u;
                    o[c * n + r] = p[1] - 2.0 * u * v;
                    o[c * n + c] = -u * u;
                }
                for i in 0..m {
                    for k in 0..2 {
                        let r = 2 * i + k;
                        if i > 0 {
                            o[r * n + r - 2] += d;
                            o[r * n + r] -= d;
                        }
                        if i + 1 < m {
                            o[r * n + r + 2] += d;
                            o[r * n + r] -= d;
                        }
                    }
                }
            }
            Body::Robertson { p } => {
                let (a, b, c) = (p[0], p[1], p[2]);
                o[0] = -a;
                o[1] = b * x[2];
                o[2] = b * x[1];
                o[3] = a;
                o[4] = -b * x[2] - 2.0 * c * x[1];
                o[5] = -b * x[1];
                o[7] = 2.0 * c * x[1];
            }
            Body::Lorenz { p } => {
                o[0] = -p[0];
                o[1] = p[0];
                o[3] = p[1] - x[2];
                o[4] = -1.0;
                o[5] = -x[0];
                o[6] = x[1];
                o[7] = x[0];
                o[8] = -p[2];
            }
            Body::Conserve { k } => {
                for &(a, b, r, quad) in k {
                    let a1 = (a + 1) % n;
                    if quad {
                        o[a * n + a] -= r * x[a1];
                        o[a * n + a1] -= r * x[a];
                        o[b * n + a] += r * x[a1];
                        o[b * n + a1] += r * x[a];
                    } else {
                        o[a * n + a] -= r;
                        o[b * n + a] += r;
                    }
                }
            }
        }
    }

    /// Exact solution at time t, for the families that have one.
    pub fn exact(&self, t: f64) -> Option<Vec<f64>> {
        let s = self.s(t);
        let n = self.n;
        let x: Vec<f64> = match &self.body {
            Body::Lin { q, blocks, phi, w0, .. } => {
                let mut w = vec![0.0; n];
                for (b, &(a, om)) in blocks.iter().enumerate() {
                    let i = 2 * b;
                    let e = (-a * s).exp();
                    if i + 1 < n {
                        let (sn, cs) = (om * s).sin_cos();
                        w[i] = e * (cs * w0[i] + sn * w0[i + 1]);
                        w[i + 1] = e * (-sn * w0[i] + cs * w0[i + 1]);
                    } else {
                        w[i] = e * w0[i];
                    }
                }
                let qw = la::matvec(n, q, &w);
                (0..n)
                    .map(|i| {
                        let p = &phi[i];
                        p[0] + p[1] * (p[2] * s + p[3]).sin() + qw[i]
                    })
                    .collect()
            }
            Body::Diag { q, ty, w0 } => {
                let w: Vec<f64> = (0..n)
                    .map(|j| {
                        let (t, k) = ty[j];
                        let a = w0[j];
                        match t {
                            0 => a / (1.0 + 2.0 * k * a * a * s).sqrt(),
                            1 => a / (a + (1.0 - a) * (-k * s).exp()),
                            2 => a * (k * s.sin()).exp(),
                            _ => a / (1.0 + k * a.abs() * s),
                        }
                    })
                    .collect();
                la::matvec(n, q, &w)
            }
            Body::Quad { co } => (0..n)
                .map(|i| {
                    let c = &co[i];
                    self.u0[i] / self.amp
                        + c[0] * s
                        + c[1] / c[3] * ((c[3] * s + c[4]).sin() - c[4].sin())
                        + 0.5 * c[2] * s * s
                })
                .collect(),
            _ => return None,
        };
        Some(x.iter().map(|v| v * self.amp).collect())
    }

    /// Jacobian independent of state and time
    pub fn constant_jacobian(&self) -> bool {
        matches!(self.body, Body::Lin { .. } | Body::Quad { .. })
    }

    pub fn has_exact(&self) -> bool {
        matches!(self.body, Body::Lin { .. } | Body::Quad { .. } | Body::Diag { .. })
    }
}
