//! C15: difference quotients against exact derivatives.
use cyphus_diffeq::verif;
use engine::runner::{Def, Env, Obs};
use engine::spec::grid;
use ndarray::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    n: usize,
    c: Vec<f64>,
    /// log10 magnitude and sign of each argument; magnitude below -9 means zero
    mag: Vec<(f64, bool)>,
    tmag: (f64, bool),
    /// log10 magnitude of the values
    fmag: f64,
    /// log10 of the curvature relative to the argument
    curve: f64,
    /// 0 state Jacobian, 1 time derivative
    time: bool,
    supplied: bool,
}

/// f_j = F sum_m a_jm shape(phi_m),  phi_m = sum_i b_mi (u_i - c_i)/s_i + c_m (t - tc)/s_t + d_m
struct Fun {
    n: usize,
    a: Vec<f64>,
    b: Vec<f64>,
    bt: Vec<f64>,
    d: Vec<f64>,
    u: Vec<f64>,
    t: f64,
    su: Vec<f64>,
    st: f64,
    fscale: f64,
    base: Vec<f64>,
    calls: Cell<usize>,
    args: RefCell<Vec<(Vec<f64>, f64)>>,
}

fn point(m: (f64, bool)) -> f64 {
    if m.0 < -9.0 {
        return 0.0;
    }
    let x = 10f64.powf(m.0);
    if m.1 {
        -x
    } else {
        x
    }
}

impl Fun {
    fn new(c: &Case) -> Fun {
        let n = c.n;
        let k = |i: usize| c.c[(i * 7 + i / 5) % c.c.len()];
        let u: Vec<f64> = (0..n).map(|i| point(c.mag[i % c.mag.len()])).collect();
        let t = point(c.tmag);
        // length over which the function bends, no shorter than the reference increment resolves
        let len = |x: f64| x.abs().max(1e-5) * 10f64.powf(c.curve);
        Fun {
            n,
            a: (0..n * n).map(|i| k(i)).collect(),
            b: (0..n * n).map(|i| k(i + 101)).collect(),
            bt: (0..n).map(|i| k(i + 211)).collect(),
            d: (0..n).map(|i| 3.0 * k(i + 307)).collect(),
            su: u.iter().map(|x| len(*x)).collect(),
            st: len(t),
            u,
            t,
            fscale: 10f64.powf(c.fmag),
            base: (0..n).map(|i| 10f64.powf(c.fmag) * k(i + 401)).collect(),
            calls: Cell::new(0),
            args: RefCell::new(vec![]),
        }
    }
    fn phi(&self, m: usize, u: &[f64], t: f64) -> f64 {
        let mut s = self.d[m] + self.bt[m] * (t - self.t) / self.st;
        for i in 0..self.n {
            s += self.b[m * self.n + i] * (u[i] - self.u[i]) / self.su[i];
        }
        s
    }
    fn eval(&self, u: &[f64], t: f64, out: &mut [f64]) {
        for j in 0..self.n {
            let mut s = 0.0;
            for m in 0..self.n {
                let p = self.phi(m, u, t);
                s += self.a[j * self.n + m]
                    * match m % 3 {
                        0 => p.sin(),
                        1 => p + 0.5 * p * p,
                        _ => p.tanh(),
                    };
            }
            out[j] = self.base[j] + self.fscale * s;
        }
    }
    fn slope(&self, m: usize) -> f64 {
        let p = self.d[m];
        match m % 3 {
            0 => p.cos(),
            1 => 1.0 + p,
            _ => 1.0 - p.tanh() * p.tanh(),
        }
    }
    /// exact derivative of component j in direction i (i == n: time)
    fn exact(&self, j: usize, i: usize) -> f64 {
        let mut s = 0.0;
        for m in 0..self.n {
            let w = if i == self.n { self.bt[m] / self.st } else { self.b[m * self.n + i] / self.su[i] };
            s += self.a[j * self.n + m] * self.slope(m) * w;
        }
        self.fscale * s
    }
    /// error a one-sided difference with increment `del` may have
    fn allowance(&self, j: usize, i: usize, del: f64, x: f64) -> f64 {
        let (mut curv, mut slope, mut mag) = (0.0, 0.0, self.base[j].abs());
        for m in 0..self.n {
            let w = (if i == self.n { self.bt[m] / self.st } else { self.b[m * self.n + i] / self.su[i] })
                .abs();
            let a = self.a[j * self.n + m].abs() * self.fscale;
            curv += a * w * w;
            slope += a * w * 4.0;
            mag += a * 10.0;
        }
        let eps = f64::EPSILON;
        0.5 * del * curv + eps * mag / del + eps * x.abs() / del * slope
    }
}

fn c15_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let f = Fun::new(c);
    let n = c.n;
    let rhs = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, p: &Fun| {
        p.calls.set(p.calls.get() + 1);
        let x = u.to_vec();
        let mut y = vec![0.0; p.n];
        p.eval(&x, t, &mut y);
        p.args.borrow_mut().push((x, t));
        for i in 0..p.n {
            du[i] = y[i];
        }
    };
    let u = Array1::from(f.u.clone());
    obs.nontrivial = true;
    obs.label(if c.time { "time derivative" } else { "state Jacobian" });
    obs.label(&format!("size {}", n));
    let jac = |mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, p: &Fun| {
        for i in 0..p.n {
            for j in 0..p.n {
                df[[i, j]] = (i * 100 + j) as f64 + u[0] + t;
            }
        }
    };
    let dt = |mut df: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, p: &Fun| {
        for i in 0..p.n {
            df[i] = i as f64 + u[0] + t;
        }
    };
    if c.supplied {
        obs.label("supplied");
    }
    if !c.time {
        let mut df = Array2::<f64>::from_elem((n, n), f64::NAN);
        verif::jacobian_u(
            &rhs,
            if c.supplied { Some(&jac) } else { None },
            df.view_mut(),
            u.view(),
            f.t,
            &f,
        );
        for j in 0..n {
            for i in 0..n {
                if c.supplied {
                    if df[[j, i]] != (j * 100 + i) as f64 + u[0] + f.t {
                        return Err("supplied Jacobian not used as given".into());
                    }
                    continue;
                }
                let del = (f64::EPSILON * f.u[i].abs().max(1e-5)).sqrt();
                let e = (df[[j, i]] - f.exact(j, i)).abs();
                let a = f.allowance(j, i, del, f.u[i]);
                obs.maxi("error/allowance (state)", e / a);
                if !(e <= 8.0 * a) {
                    return Err(format!(
                        "d f[{}]/d u[{}] at u = {:e}: {:e} instead of {:e}, {:.1} allowances off",
                        j, i, f.u[i], df[[j, i]], f.exact(j, i), e / a
                    ));
                }
            }
        }
    } else {
        let mut df = Array1::<f64>::from_elem(n, f64::NAN);
        verif::jacobian_t(
            &rhs,
            if c.supplied { Some(&dt) } else { None },
            df.view_mut(),
            u.view(),
            f.t,
            &f,
        );
        for j in 0..n {
            if c.supplied {
                if df[j] != j as f64 + u[0] + f.t {
                    return Err("supplied time derivative not used as given".into());
                }
                continue;
            }
            let del = (f64::EPSILON * f.t.abs().max(1e-5)).sqrt();
            let e = (df[j] - f.exact(j, n)).abs();
            let a = f.allowance(j, n, del, f.t);
            obs.maxi("error/allowance (time)", e / a);
            if !(e <= 8.0 * a) {
                return Err(format!(
                    "d f[{}]/dt at t = {:e}: {:e} instead of {:e}, {:.1} allowances off",
                    j, f.t, df[j], f.exact(j, n), e / a
                ));
            }
        }
    }
    if c.supplied && f.calls.get() > 0 {
        return Err("right-hand side called although the derivative was supplied".into());
    }
    // only the differentiated argument may move
    for (x, t) in f.args.borrow().iter() {
        let moved = (0..n).filter(|i| x[*i] != f.u[*i]).count() + (*t != f.t) as usize;
        if moved > 1 || (c.time && *t == f.t && moved > 0) || (!c.time && *t != f.t) {
            return Err(format!("right-hand side evaluated at u = {:?}, t = {:e}", x, t));
        }
    }
    Ok(())
}

pub fn c15(env: &Env) -> i32 {
    let strat = || {
        let mag = || (prop_oneof![1 => Just(-10.0), 9 => grid((-6.0, 8.0))], any::<bool>());
        (
            1usize..=8,
            prop::collection::vec((-100i32..=100).prop_map(|v| v as f64 / 100.0), 30),
            prop::collection::vec(mag(), 8),
            mag(),
            grid((-6.0, 6.0)),
            grid((-0.5, 2.0)),
            prop::bool::weighted(0.4),
            prop::bool::weighted(0.1),
        )
            .prop_map(|(n, c, mag, tmag, fmag, curve, time, supplied)| Case {
                n,
                c,
                mag,
                tmag,
                fmag,
                curve,
                time,
                supplied,
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C15",
            rule: "every case (a full Jacobian or time derivative is compared)",
            quick: 400000,
            thorough: 8000000,
            strategy: &strat,
            case: &c15_case,
            assumptions: &["allowance: 8 (del max|f''|/2 + eps |f|/del + eps |x| |f'|/del) with del = sqrt(eps max(1e-5, |x|))"],
        },
    )
}
