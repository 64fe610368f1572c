//! Runs the integrators under test on generated problems.
#![allow(dead_code)]
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::{OdeAlgorithm, OdeIntegrator, OdeIntegratorBuilder, OdeRetCode, OdeStatistics};
use cyphus_diffeq::radau::Radau5;
use engine::runner::Budget;
use engine::spec::Opt;
use engine::sys::Sys;
use ndarray::prelude::*;
use std::cell::{Cell, RefCell};

/// Change of variables applied on top of a base problem.
#[derive(Clone, Debug)]
pub struct Xf {
    /// component i of the base problem sits at position perm[i]
    pub perm: Vec<usize>,
    pub copies: usize,
    pub uscale: f64,
    pub tscale: f64,
    pub tshift: f64,
    pub mirror: bool,
}

impl Xf {
    pub fn id(n: usize) -> Xf {
        Xf { perm: (0..n).collect(), copies: 1, uscale: 1.0, tscale: 1.0, tshift: 0.0, mirror: false }
    }
    pub fn state(&self, u: &[f64]) -> Vec<f64> {
        let n = u.len();
        let mut v = vec![0.0; n * self.copies];
        for k in 0..self.copies {
            for i in 0..n {
                v[k * n + self.perm[i]] = u[i] * self.uscale;
            }
        }
        v
    }
    pub fn time(&self, t: f64) -> f64 {
        let x = (t + self.tshift) * self.tscale;
        if self.mirror {
            -x
        } else {
            x
        }
    }
}

/// Ways in which a right-hand side can misbehave.
#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Hostile {
    /// 0 none, 1 NaN after s0, 2 infinite after s0, 3 blow-up u' = a u^2, 4 jump at s0,
    /// 5 NaN for |u| above a threshold, 6 square-root domain error, 7 NaN always, 8 sign-flipping,
    /// 9 exponential growth, 10 NaN at the start point only, 11 singular in time, 12 dead zone NaN,
    /// 13 periodic jumps, 14 pseudo-random noise
    pub kind: u8,
    pub s0: f64,
    pub a: f64,
}

/// Parameter object handed to the integrators.
pub struct Ctx {
    pub sys: Sys,
    pub xf: Xf,
    pub gain: f64,
    pub shift: f64,
    pub hostile: Hostile,
    pub nf: Cell<u64>,
    pub nj: Cell<u64>,
    pub budget: u64,
    pub tlo: Cell<f64>,
    pub thi: Cell<f64>,
    pub nonfinite: Cell<bool>,
    pub mark: Cell<u8>,
    /// times of right-hand side evaluations, if wanted
    pub times: Option<RefCell<Vec<f64>>>,
    /// all evaluations, if wanted
    pub calls: Option<RefCell<Vec<Call>>>,
    /// what a callback does at each call, and what it saw
    pub plan: Vec<(usize, Act)>,
    pub log: RefCell<Vec<Seen>>,
    pub held: RefCell<Vec<Held>>,
    /// linear components without connection to the problem, all zero
    pub extra: Vec<Mode>,
    /// whether these come before those of the problem
    pub lead: bool,
    /// solution the problem is altered to have
    pub track: Option<Track>,
    /// where the right-hand side is defined
    pub fence: Option<Fence>,
}

/// Surroundings of the exact solution beyond which a right-hand side has no value.
#[derive(Clone, Debug)]
pub struct Fence {
    pub margin: f64,
    /// only components from this one on are restricted
    pub from: usize,
    /// what is returned outside, and whether for all components or only the last
    pub value: f64,
    pub all: bool,
    /// only evaluations at this time are restricted
    pub only: Option<Cell<f64>>,
}

impl Fence {
    pub fn outside(&self, sys: &Sys, t: f64, u: &[f64]) -> bool {
        if self.only.as_ref().map_or(false, |x| x.get() != t) {
            return false;
        }
        let e = sys.exact(t).unwrap();
        (self.from..sys.n).any(|i| !((u[i] - e[i]).abs() <= self.margin))
    }
}

/// Prescribed solution of a problem, polynomials in the time since the start.
#[derive(Clone, Debug)]
pub struct Track {
    /// coefficients of each component
    pub co: Vec<[f64; 6]>,
    /// right-hand side depends on time alone
    pub free: bool,
}

impl Track {
    pub fn value(&self, i: usize, t: f64) -> f64 {
        self.co[i].iter().rev().fold(0.0, |a, c| a * t + c)
    }
    pub fn slope(&self, i: usize, t: f64) -> f64 {
        (1..6).rev().fold(0.0, |a, j| a * t + j as f64 * self.co[i][j])
    }
}

/// Linear system of one or two components.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Real(f64),
    /// real and imaginary part, and the imbalance of the entries as a power of two
    Pair(f64, f64, i32),
}

impl Mode {
    pub fn width(&self) -> usize {
        match self {
            Mode::Real(_) => 1,
            Mode::Pair(..) => 2,
        }
    }
    fn matrix(&self) -> [[f64; 2]; 2] {
        match *self {
            Mode::Real(a) => [[a, 0.0], [0.0, 0.0]],
            Mode::Pair(a, b, k) => [[a, b * 2f64.powi(k)], [-b * 2f64.powi(-k), a]],
        }
    }
}

/// One evaluation of the right-hand side or the Jacobian.
#[derive(Clone, Debug)]
pub struct Call {
    pub jac: bool,
    pub t: f64,
    pub u: Vec<f64>,
    /// the matrix, where it was put together from difference quotients
    pub diff: Option<Vec<f64>>,
}

/// Change made by a callback.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Act {
    /// u <- a u + b amp
    State(f64, f64),
    /// additive part of the right-hand side
    Shift(f64),
    /// factor of the right-hand side
    Gain(f64),
    /// end the integration
    Stop,
    /// factor of the next step
    Size(f64),
    /// factor of both tolerances
    Tol(f64),
    /// maximum step, as a part of the original interval
    Cap(f64),
    /// new end, as a part of the original interval ahead of the current time
    End(f64),
}

/// Settings of an integrator in force.
#[derive(Clone, Copy, Debug)]
pub struct Held {
    pub dt: f64,
    pub reltol: f64,
    pub abstol: f64,
    pub dtmax: f64,
    pub end: f64,
    /// right-hand side evaluations so far
    pub calls: usize,
}

/// What a callback saw, and what it left behind.
#[derive(Clone, Debug)]
pub struct Seen {
    pub t: f64,
    pub u: Vec<f64>,
    pub tprev: f64,
    pub uprev: Vec<f64>,
    pub dtprev: f64,
    pub points: usize,
    pub accepts: usize,
    pub after: Vec<f64>,
    pub gain: f64,
    pub shift: f64,
}

impl Ctx {
    pub fn new(sys: &Sys) -> Ctx {
        Ctx {
            sys: sys.clone(),
            xf: Xf::id(sys.n),
            gain: 1.0,
            shift: 0.0,
            hostile: Hostile::default(),
            nf: Cell::new(0),
            nj: Cell::new(0),
            budget: 1_000_000,
            tlo: Cell::new(f64::INFINITY),
            thi: Cell::new(f64::NEG_INFINITY),
            nonfinite: Cell::new(false),
            mark: Cell::new(0),
            times: None,
            calls: None,
            plan: vec![],
            log: RefCell::new(vec![]),
            held: RefCell::new(vec![]),
            extra: vec![],
            lead: false,
            track: None,
            fence: None,
        }
    }
    pub fn with(sys: &Sys, xf: &Xf) -> Ctx {
        let mut c = Ctx::new(sys);
        c.xf = xf.clone();
        c
    }
    pub fn base_time(&self, t: f64) -> f64 {
        let x = if self.xf.mirror { -t } else { t };
        x / self.xf.tscale - self.xf.tshift
    }
    /// number of components
    pub fn dim(&self) -> usize {
        self.sys.n * self.xf.copies + self.extra.iter().map(|m| m.width()).sum::<usize>()
    }
    /// positions of the problem's components and of the others
    fn places(&self) -> (usize, usize) {
        let m = self.sys.n * self.xf.copies;
        if self.lead {
            (self.dim() - m, 0)
        } else {
            (0, m)
        }
    }
    /// right-hand side without bookkeeping
    pub fn eval(&self, t: f64, u: &[f64], out: &mut [f64]) {
        let m = self.sys.n * self.xf.copies;
        let (o, mut e) = self.places();
        self.eval_base(t, &u[o..o + m], &mut out[o..o + m]);
        for x in &self.extra {
            let (w, a) = (x.width(), x.matrix());
            for i in 0..w {
                out[e + i] = (0..w).map(|j| a[i][j] * u[e + j]).sum();
            }
            e += w;
        }
    }
    fn eval_base(&self, t: f64, u: &[f64], out: &mut [f64]) {
        let n = self.sys.n;
        let tb = self.base_time(t);
        let mut x = [0.0f64; engine::sys::WIDTH];
        let mut y = [0.0f64; engine::sys::WIDTH];
        let sg = if self.xf.mirror { -1.0 } else { 1.0 };
        let sc = sg * self.gain * self.xf.uscale / self.xf.tscale;
        for k in 0..self.xf.copies {
            for i in 0..n {
                x[i] = u[k * n + self.xf.perm[i]] / self.xf.uscale;
            }
            self.sys.f(tb, &x[..n], &mut y[..n]);
            if let Some(p) = &self.track {
                let t = tb - self.sys.t0;
                let mut w = [0.0f64; engine::sys::WIDTH];
                for i in 0..n {
                    x[i] = p.value(i, t);
                }
                self.sys.f(tb, &x[..n], &mut w[..n]);
                for i in 0..n {
                    y[i] = p.slope(i, t) + if p.free { 0.0 } else { y[i] - w[i] };
                }
            }
            if let Some(w) = &self.fence {
                if w.outside(&self.sys, tb, &x[..n]) {
                    let k = if w.all { 0 } else { n - 1 };
                    y[k..n].iter_mut().for_each(|v| *v = w.value);
                }
            }
            if self.hostile.kind != 0 {
                self.misbehave(tb, &x[..n], &mut y[..n]);
            }
            for i in 0..n {
                out[k * n + self.xf.perm[i]] = (y[i] + self.shift * self.sys.amp * self.sys.kappa) * sc;
            }
        }
    }
    fn misbehave(&self, t: f64, x: &[f64], y: &mut [f64]) {
        let h = &self.hostile;
        let s = self.sys.kappa * self.sys.sigma * (t - self.sys.t0);
        let amp = self.sys.amp;
        let rate = amp * self.sys.kappa * self.sys.sigma;
        let s0 = h.s0 * self.sys.span;
        let bad = |y: &mut [f64], v: f64| {
            for z in y.iter_mut() {
                *z = v;
            }
        };
        match h.kind {
            1 if s > s0 => bad(y, f64::NAN),
            2 if s > s0 => bad(y, f64::INFINITY),
            3 => {
                for (z, v) in y.iter_mut().zip(x) {
                    *z += (1.0 + h.a.abs()) * rate * (v / amp) * (v / amp);
                }
            }
            4 if s > s0 => {
                for z in y.iter_mut() {
                    *z += 10.0 * h.a * rate;
                }
            }
            5 if x[0].abs() > amp * (0.2 + h.a.abs()) => bad(y, f64::NAN),
            6 => y[0] = -rate * (x[0] / amp - h.a).sqrt(),
            7 => bad(y, f64::NAN),
            8 => y[0] = if x[0] > 0.0 { -rate * (1.0 + h.a.abs()) } else { rate },
            9 => {
                for (z, v) in y.iter_mut().zip(x) {
                    *z += 20.0 * h.a.abs() * self.sys.kappa * self.sys.sigma * v;
                }
            }
            10 if s == 0.0 => bad(y, f64::NAN),
            11 => y[0] += rate / (s0 - s),
            12 if s > s0 && s < s0 + 0.2 * h.a.abs() => bad(y, f64::NAN),
            13 => {
                if ((s * 7.0).floor() as i64) % 2 == 0 {
                    for z in y.iter_mut() {
                        *z = -*z + h.a * rate;
                    }
                }
            }
            14 => {
                let b = (s.to_bits() ^ x[0].to_bits()).wrapping_mul(0x9E3779B97F4A7C15);
                y[0] += rate * h.a * ((b >> 40) as f64 / (1u64 << 24) as f64 - 0.5);
            }
            _ => {}
        }
    }
    /// Jacobian without bookkeeping (row-major)
    pub fn eval_jac(&self, t: f64, u: &[f64], out: &mut [f64]) {
        let n = self.sys.n;
        let m = self.dim();
        let (o, mut e) = self.places();
        let tb = self.base_time(t);
        let sg = if self.xf.mirror { -1.0 } else { 1.0 };
        let sc = sg * self.gain / self.xf.tscale;
        let mut x = vec![0.0; n];
        let mut j = vec![0.0; n * n];
        for v in out.iter_mut() {
            *v = 0.0;
        }
        for x in &self.extra {
            let (w, a) = (x.width(), x.matrix());
            for i in 0..w {
                for j in 0..w {
                    out[(e + i) * m + e + j] = a[i][j];
                }
            }
            e += w;
        }
        for k in 0..self.xf.copies {
            for i in 0..n {
                x[i] = u[o + k * n + self.xf.perm[i]] / self.xf.uscale;
            }
            self.sys.jac(tb, &x, &mut j);
            if self.track.as_ref().map_or(false, |p| p.free) {
                j.iter_mut().for_each(|v| *v = 0.0);
            }
            for a in 0..n {
                for b in 0..n {
                    out[(o + k * n + self.xf.perm[a]) * m + o + k * n + self.xf.perm[b]] = j[a * n + b] * sc;
                }
            }
        }
    }
    fn tick(&self, t: f64, c: &Cell<u64>) {
        c.set(c.get() + 1);
        if t < self.tlo.get() {
            self.tlo.set(t);
        }
        if t > self.thi.get() {
            self.thi.set(t);
        }
        if self.nf.get() + self.nj.get() > self.budget {
            std::panic::panic_any(Budget(self.budget));
        }
    }
}

pub fn rhs(mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, p: &Ctx) {
    p.tick(t, &p.nf);
    if let Some(l) = &p.times {
        l.borrow_mut().push(t);
    }
    if let Some(l) = &p.calls {
        l.borrow_mut().push(Call { jac: false, t, u: u.to_vec(), diff: None });
    }
    let m = p.dim();
    assert!(u.len() == m && du.len() == m, "right-hand side called with wrong length");
    let mut x = [0.0f64; engine::sys::WIDTH];
    let mut y = [0.0f64; engine::sys::WIDTH];
    for i in 0..m {
        x[i] = u[i];
        if !u[i].is_finite() {
            p.nonfinite.set(true);
        }
    }
    p.eval(t, &x[..m], &mut y[..m]);
    for i in 0..m {
        du[i] = y[i];
    }
}

pub fn jac(mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, p: &Ctx) {
    p.tick(t, &p.nj);
    if let Some(l) = &p.calls {
        l.borrow_mut().push(Call { jac: true, t, u: u.to_vec(), diff: None });
    }
    let m = p.dim();
    let x: Vec<f64> = u.iter().cloned().collect();
    let mut j = vec![0.0; m * m];
    p.eval_jac(t, &x, &mut j);
    for a in 0..m {
        for b in 0..m {
            df[[a, b]] = j[a * m + b];
        }
    }
}

pub fn zero_dfdt(mut df: ArrayViewMut1<f64>, _u: ArrayView1<f64>, _t: f64, _p: &Ctx) {
    for i in 0..df.len() {
        df[i] = f64::NAN;
    }
}

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Which {
    Dp,
    Ra,
}

pub trait AlgX: OdeAlgorithm {
    const WHICH: Which;
    fn make() -> Self;
}
impl AlgX for DormandPrince5 {
    const WHICH: Which = Which::Dp;
    fn make() -> Self {
        DormandPrince5
    }
}
impl AlgX for Radau5 {
    const WHICH: Which = Which::Ra;
    fn make() -> Self {
        Radau5
    }
}

/// Options in absolute terms.
#[derive(Clone, Debug)]
pub struct Abs {
    pub reltol: f64,
    pub abstol: f64,
    pub dtstart: Option<f64>,
    pub dtmax: Option<f64>,
    pub safe: Option<f64>,
    pub shrink: Option<f64>,
    pub grow: Option<f64>,
    pub beta: Option<f64>,
    pub quot1: Option<f64>,
    pub quot2: Option<f64>,
    pub fnewt: Option<f64>,
    pub max_newt: Option<usize>,
    pub ext_col: Option<bool>,
    pub modern: Option<bool>,
    pub max_steps: Option<usize>,
    pub jac: bool,
    pub dense: bool,
    pub hess: bool,
    /// working tolerances of the implicit method where they are not derived
    pub work: Option<(f64, f64)>,
    /// settings without influence on the run
    pub idle: u16,
}

impl Abs {
    pub fn new(o: &Opt, sys: &Sys) -> Abs {
        let len = (sys.t1 - sys.t0).abs();
        let reltol = 10f64.powf(o.rtol);
        let rprime = 0.1 * reltol.powf(2.0 / 3.0);
        Abs {
            reltol: if o.norel { 0.0 } else { reltol },
            abstol: reltol * sys.amp * 10f64.powf(if o.norel { o.aratio.max(-1.0) } else { o.aratio }),
            dtstart: o.dtstart.map(|x| len * 10f64.powf(x)),
            dtmax: o.dtmax.map(|x| len * 10f64.powf(x)),
            safe: o.safe,
            shrink: o.shrink,
            grow: o.grow,
            beta: o.beta,
            quot1: o.quot1,
            quot2: o.quot2,
            // no tighter than rounding allows
            fnewt: o.fnewt.map(|x| 10f64.powf(x).max(1e5 * f64::EPSILON / rprime)),
            max_newt: o.max_newt,
            ext_col: o.ext_col,
            modern: o.modern,
            max_steps: o.max_steps.or(Some(20000)),
            jac: o.jac,
            dense: false,
            hess: false,
            work: None,
            idle: o.idle,
        }
    }
    /// tolerances the implicit method works with internally
    pub fn radau_tols(&self) -> (f64, f64) {
        if let Some(w) = self.work {
            return w;
        }
        let r = 0.1 * self.reltol.powf(2.0 / 3.0);
        (r, r * (self.abstol / self.reltol))
    }
    pub fn radau_fnewt(&self) -> f64 {
        let r = self.radau_tols().0;
        self.fnewt.unwrap_or_else(|| (10.0 * f64::EPSILON / r).max(0.03f64.min(r.sqrt())))
    }
    pub fn grow_limit(&self, w: Which) -> f64 {
        self.grow.unwrap_or(if w == Which::Dp { 10.0 } else { 8.0 })
    }
    pub fn shrink_limit(&self, _w: Which) -> f64 {
        self.shrink.unwrap_or(0.2)
    }
}

/// The state as an array of one of several memory layouts.
fn laid_out(u: &[f64]) -> Array1<f64> {
    let k = u.iter().fold(u.len() as u64, |h, v| (h ^ v.to_bits()).wrapping_mul(0x9E3779B97F4A7C15));
    match (k >> 60) % 5 {
        0 => Array1::from(u.iter().rev().cloned().collect::<Vec<_>>()).slice_move(s![..;-1]),
        1 => Array1::from(u.iter().flat_map(|&v| vec![v, f64::NAN]).collect::<Vec<_>>())
            .slice_move(s![..;2]),
        _ => Array1::from(u.to_vec()),
    }
}

pub fn builder<'a, A: AlgX>(
    ctx: Ctx,
    u0: &[f64],
    span: (f64, f64),
    o: &Abs,
) -> OdeIntegratorBuilder<'a, Ctx, A> {
    let mut b = OdeIntegratorBuilder::default(&rhs, laid_out(u0), span, A::make(), ctx)
        .reltol(o.reltol)
        .abstol(o.abstol);
    if let Some(v) = o.dtstart {
        // the sign does not matter
        let neg = (v.to_bits().wrapping_mul(0x9E3779B97F4A7C15) >> 60) % 4 == 0;
        b = b.dtstart(if neg { -v } else { v });
    }
    if let Some(v) = o.dtmax {
        b = b.dtmax(v);
    }
    if let Some(v) = o.safe {
        b = b.safe(v);
    }
    if let Some(v) = o.shrink {
        b = b.facl(if A::WHICH == Which::Dp { v } else { 1.0 / v });
    }
    if let Some(v) = o.grow {
        b = b.facr(if A::WHICH == Which::Dp { v } else { 1.0 / v });
    }
    if let Some(v) = o.beta {
        b = b.beta(v);
    }
    if let Some(v) = o.quot1 {
        b = b.quot1(v);
    }
    if let Some(v) = o.quot2 {
        b = b.quot2(v);
    }
    if let Some(v) = o.fnewt {
        b = b.fnewt(v);
    }
    if let Some(v) = o.max_newt {
        b = b.max_newt_iter(v);
    }
    if let Some(v) = o.ext_col {
        b = b.use_ext_col(v);
    }
    if let Some(v) = o.modern {
        b = b.modern_pred(v);
    }
    if let Some(v) = o.max_steps {
        b = b.max_steps(v);
    }
    if o.jac {
        b = b.dfdu(&jac);
    }
    let idle = |k: u16| o.idle >> k & 1 == 1;
    if o.dense || idle(0) {
        b = b.dense(true);
    }
    if o.hess || idle(1) {
        b = b.hess(true);
    }
    if idle(2) {
        b = b.max_stiff((o.idle >> 8) as usize % 40);
    }
    if idle(3) {
        b = b.dfdt(&zero_dfdt);
    }
    if idle(4) {
        match A::WHICH {
            Which::Dp => {
                b = b.dfdu(&jac).max_newt_iter(1).fnewt(0.5).quot1(0.5).quot2(3.0);
                b = b.use_ext_col(idle(5)).modern_pred(idle(6));
            }
            Which::Ra => b = b.beta(0.7),
        }
    }
    b
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Code {
    Continue,
    Success,
    MaxIters,
    DtLessThanMin,
    Stiff,
    SingularMatrix,
    Failure,
}

pub fn code(c: &OdeRetCode) -> Code {
    match c {
        OdeRetCode::Continue => Code::Continue,
        OdeRetCode::Success => Code::Success,
        OdeRetCode::MaxIters => Code::MaxIters,
        OdeRetCode::DtLessThanMin => Code::DtLessThanMin,
        OdeRetCode::Stiff => Code::Stiff,
        OdeRetCode::SingularMatrix => Code::SingularMatrix,
        OdeRetCode::Failure => Code::Failure,
    }
}

/// Everything observable about a run.
#[derive(Clone, Debug)]
pub struct Out {
    pub ts: Vec<f64>,
    pub us: Vec<Vec<f64>>,
    pub code: Code,
    pub st: OdeStatistics,
    pub nf: u64,
    pub nj: u64,
    pub nf0: u64,
    pub nj0: u64,
    pub tlo: f64,
    pub thi: f64,
    /// step sizes left behind: proposed and last
    pub dts: [f64; 2],
    /// statistics after each recorded point (only from stepwise runs)
    pub marks: Vec<OdeStatistics>,
}

pub fn snapshot<A: AlgX>(it: &OdeIntegrator<Ctx, A>, nf0: u64, nj0: u64) -> Out {
    Out {
        ts: it.sol.ts.clone(),
        us: it.sol.us.iter().map(|u| u.to_vec()).collect(),
        code: code(&it.sol.retcode),
        st: it.stats.clone(),
        nf: it.params.nf.get(),
        nj: it.params.nj.get(),
        nf0,
        nj0,
        tlo: it.params.tlo.get(),
        thi: it.params.thi.get(),
        dts: [it.dt, it.dtprev],
        marks: vec![],
    }
}

/// Step to the end by hand, keeping the statistics after every recorded point.
pub fn stepwise<A: AlgX>(it: &mut OdeIntegrator<Ctx, A>) -> Vec<OdeStatistics> {
    let mut marks = vec![it.stats.clone()];
    loop {
        let more = it.step().is_some();
        if it.sol.ts.len() > marks.len() {
            marks.push(it.stats.clone());
        }
        if !more {
            return marks;
        }
    }
}

pub fn run_ctx<A: AlgX>(ctx: Ctx, u0: &[f64], span: (f64, f64), o: &Abs) -> Out {
    let mut it = builder::<A>(ctx, u0, span, o).build();
    let (a, b) = (it.params.nf.get(), it.params.nj.get());
    it.integrate();
    snapshot(&it, a, b)
}

pub fn run_steps_ctx<A: AlgX>(ctx: Ctx, u0: &[f64], span: (f64, f64), o: &Abs) -> Out {
    let mut it = builder::<A>(ctx, u0, span, o).build();
    let (a, b) = (it.params.nf.get(), it.params.nj.get());
    let marks = stepwise(&mut it);
    let mut out = snapshot(&it, a, b);
    out.marks = marks;
    out
}

/// Run of the base problem by single steps.
pub fn run_steps(w: Which, sys: &Sys, o: &Abs) -> Out {
    let ctx = Ctx::new(sys);
    match w {
        Which::Dp => run_steps_ctx::<DormandPrince5>(ctx, &sys.u0, (sys.t0, sys.t1), o),
        Which::Ra => run_steps_ctx::<Radau5>(ctx, &sys.u0, (sys.t0, sys.t1), o),
    }
}

/// Plain run of the base problem.
pub fn run(w: Which, sys: &Sys, o: &Abs) -> Out {
    run_xf(w, sys, &Xf::id(sys.n), o)
}

/// Run of the transformed problem (options given already transformed).
pub fn run_xf(w: Which, sys: &Sys, xf: &Xf, o: &Abs) -> Out {
    let ctx = Ctx::with(sys, xf);
    let u0 = xf.state(&sys.u0);
    let span = (xf.time(sys.t0), xf.time(sys.t1));
    match w {
        Which::Dp => run_ctx::<DormandPrince5>(ctx, &u0, span, o),
        Which::Ra => run_ctx::<Radau5>(ctx, &u0, span, o),
    }
}

impl Out {
    /// attempts made for recorded point k (k >= 1), from stepwise marks
    pub fn attempts(&self, w: Which, k: usize) -> usize {
        let (a, b) = (&self.marks[k - 1], &self.marks[k]);
        match w {
            Which::Dp => (b.function_evals - a.function_evals) / 6,
            Which::Ra => b.steps - a.steps,
        }
    }
}

/// Callback that keeps what it sees and follows the plan.
pub fn acting<'a, A: AlgX>(it: &mut OdeIntegrator<'a, Ctx, A>) {
    let call = it.params.log.borrow().len();
    let seen = Seen {
        t: it.t,
        u: it.u.to_vec(),
        tprev: it.tprev,
        uprev: it.uprev.to_vec(),
        dtprev: it.dtprev,
        points: it.sol.ts.len(),
        accepts: it.stats.accepts,
        after: vec![],
        gain: 0.0,
        shift: 0.0,
    };
    let amp = it.params.sys.amp;
    let acts: Vec<Act> =
        it.params.plan.iter().filter(|p| p.0 == call).map(|p| p.1.clone()).collect();
    for a in acts {
        match a {
            Act::State(f, b) => {
                for i in 0..it.u.len() {
                    it.u[i] = f * it.u[i] + b * amp * if i % 2 == 0 { 1.0 } else { -0.5 };
                }
            }
            Act::Shift(v) => it.params.shift = v,
            Act::Gain(v) => it.params.gain = v,
            Act::Stop => it.sol.retcode = OdeRetCode::Success,
            Act::Size(f) => it.dt *= f,
            Act::Tol(f) => {
                it.opts.reltol *= f;
                it.opts.abstol *= f;
            }
            Act::Cap(f) => it.opts.dtmax = f * it.params.sys.length(),
            Act::End(f) => it.tfinal = it.t + it.tdir * f * it.params.sys.length(),
        }
    }
    let (after, gain, shift) = (it.u.to_vec(), it.params.gain, it.params.shift);
    it.params.log.borrow_mut().push(Seen { after, gain, shift, ..seen });
    let held = hold(it);
    it.params.held.borrow_mut().push(held);
}

pub fn hold<A: AlgX>(it: &OdeIntegrator<Ctx, A>) -> Held {
    Held {
        dt: it.dt,
        reltol: it.opts.reltol,
        abstol: it.opts.abstol,
        dtmax: it.opts.dtmax,
        end: it.tfinal,
        calls: it.params.times.as_ref().map_or(0, |t| t.borrow().len()),
    }
}

/// First difference between two runs, allowing a relative deviation.
pub fn differ(a: &Out, b: &Out, tol: f64) -> Option<String> {
    if a.code != b.code {
        return Some(format!("return codes {:?} and {:?}", a.code, b.code));
    }
    let m = a.ts.len().min(b.ts.len());
    let tm = a.ts.iter().chain(&b.ts).fold(0.0f64, |m, v| m.max(v.abs()));
    let mut um = 0.0f64;
    for k in 0..m {
        if !((a.ts[k] - b.ts[k]).abs() <= tol * tm) {
            return Some(format!("point {}: times {:e} and {:e}", k, a.ts[k], b.ts[k]));
        }
        if a.us[k].len() != b.us[k].len() {
            return Some(format!("point {}: lengths differ", k));
        }
        for i in 0..a.us[k].len() {
            um = um.max(a.us[k][i].abs()).max(b.us[k][i].abs());
        }
        for i in 0..a.us[k].len() {
            if !((a.us[k][i] - b.us[k][i]).abs() <= tol * um) {
                return Some(format!(
                    "point {} component {}: {:e} and {:e}",
                    k, i, a.us[k][i], b.us[k][i]
                ));
            }
        }
    }
    if a.ts.len() != b.ts.len() {
        return Some(format!("{} and {} points", a.ts.len(), b.ts.len()));
    }
    None
}

/// Whether two runs part by no more than rounding, judged by the first point that is not the
/// same: steps the same but for what rounding makes of an error estimate, states the same to
/// eleven digits. What follows is not compared: rounding can decide about a step.
pub fn rounding(a: &Out, b: &Out) -> bool {
    let tm = a.ts.iter().chain(&b.ts).fold(0.0f64, |m, v| m.max(v.abs()));
    let mut um = 0.0f64;
    for k in 0..a.ts.len().min(b.ts.len()) {
        um = a.us[k].iter().chain(&b.us[k]).fold(um, |m, v| m.max(v.abs()));
        if a.ts[k] != b.ts[k] || a.us[k] != b.us[k] {
            let h = (a.ts[k] - a.ts[k.max(1) - 1]).abs();
            let tol = if a.ts[k] == b.ts[k] { 1e-11 } else { 1e-5 };
            return (a.ts[k] - b.ts[k]).abs() <= 1e-13 * tm + 1e-5 * h
                && a.us[k].len() == b.us[k].len()
                && (0..a.us[k].len()).all(|i| (a.us[k][i] - b.us[k][i]).abs() <= tol * um);
        }
    }
    false
}

/// Largest magnitude each component has had up to each recorded point.
pub fn running_max(us: &[Vec<f64>]) -> Vec<f64> {
    let mut m = vec![0.0f64; us[0].len()];
    for u in us {
        for i in 0..u.len() {
            m[i] = m[i].max(u[i].abs());
        }
    }
    m
}
