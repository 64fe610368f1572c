//! C21: builder settings.
use crate::drive::*;
use crate::mesh::which;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::{OdeIntegrator, OdeIntegratorBuilder};
use cyphus_diffeq::radau::Radau5;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Kind, Prob, Sys};
use ndarray::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Set {
    /// option number, value
    Real(usize, f64),
    Count(usize, usize),
    Flag(usize, bool),
    /// which of two functions: Jacobian, time derivative, callback
    Fun(usize, bool),
}

const REALS: [&str; 11] =
    ["reltol", "abstol", "dtstart", "dtmax", "safe", "facr", "facl", "quot1", "quot2", "beta", "fnewt"];
const COUNTS: [&str; 3] = ["max_steps", "max_newt_iter", "max_stiff"];
const FLAGS: [&str; 4] = ["dense", "modern_pred", "use_ext_col", "hess"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Build {
    pub alg: Which,
    pub prob: Prob,
    pub sets: Vec<Set>,
    /// sort keys giving a second order of the same calls
    pub keys: Vec<u32>,
    /// some settings have values that make no sense
    #[serde(default)]
    pub odd: bool,
}

fn jac2(df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, p: &Ctx) {
    p.mark.set(1);
    jac(df, u, t, p)
}
fn cb1<'a, A: AlgX>(it: &mut OdeIntegrator<'a, Ctx, A>) {
    it.params.hostile.s0 = 1.0;
}
fn cb2<'a, A: AlgX>(it: &mut OdeIntegrator<'a, Ctx, A>) {
    it.params.hostile.s0 = 2.0;
}

fn call<'a, A: AlgX>(
    b: OdeIntegratorBuilder<'a, Ctx, A>,
    s: &Set,
) -> OdeIntegratorBuilder<'a, Ctx, A> {
    match *s {
        Set::Real(k, v) => match k {
            0 => b.reltol(v),
            1 => b.abstol(v),
            2 => b.dtstart(v),
            3 => b.dtmax(v),
            4 => b.safe(v),
            5 => b.facr(v),
            6 => b.facl(v),
            7 => b.quot1(v),
            8 => b.quot2(v),
            9 => b.beta(v),
            _ => b.fnewt(v),
        },
        Set::Count(k, v) => match k {
            0 => b.max_steps(v),
            1 => b.max_newt_iter(v),
            _ => b.max_stiff(v),
        },
        Set::Flag(k, v) => match k {
            0 => b.dense(v),
            1 => b.modern_pred(v),
            2 => b.use_ext_col(v),
            _ => b.hess(v),
        },
        Set::Fun(k, v) => match (k, v) {
            (0, false) => b.dfdu(&jac),
            (0, true) => b.dfdu(&jac2),
            (1, _) => b.dfdt(&zero_dfdt),
            (_, false) => b.callback(&cb1::<A>),
            (_, true) => b.callback(&cb2::<A>),
        },
    }
}

fn slot(s: &Set) -> (u8, usize) {
    match s {
        Set::Real(k, _) => (0, *k),
        Set::Count(k, _) => (1, *k),
        Set::Flag(k, _) => (2, *k),
        Set::Fun(k, _) => (3, *k),
    }
}

/// what the options must be
struct Model {
    reals: [f64; 11],
    counts: [usize; 3],
    flags: [bool; 4],
    funs: [Option<bool>; 3],
}

fn model(w: Which, sets: &[Set]) -> Model {
    let inf = f64::INFINITY;
    let mut m = match w {
        Which::Dp => Model {
            reals: [1e-3, 1e-7, 1e-6, inf, 0.9, 10.0, 0.2, 0.0, 0.0, 0.04, 0.0],
            counts: [100000, 7, 1000],
            flags: [false, true, true, false],
            funs: [None; 3],
        },
        Which::Ra => Model {
            reals: [1e-3, 1e-7, 1e-6, inf, 0.9, 0.125, 5.0, 1.0, 1.2, 0.0, 0.0],
            counts: [100000, 7, 1000],
            flags: [false, true, true, false],
            funs: [None; 3],
        },
    };
    for s in sets {
        match *s {
            Set::Real(k, v) => m.reals[k] = v,
            Set::Count(k, v) => m.counts[k] = v,
            Set::Flag(k, v) => m.flags[k] = v,
            Set::Fun(k, v) => m.funs[k] = Some(v),
        }
    }
    if w == Which::Ra {
        // working tolerances and Newton tolerance derived from the settings
        let q = m.reals[1] / m.reals[0];
        m.reals[0] = 0.1 * m.reals[0].powf(2.0 / 3.0);
        m.reals[1] = m.reals[0] * q;
        if m.reals[10] <= 0.0 {
            m.reals[10] = (10.0 * f64::EPSILON / m.reals[0]).max(0.03f64.min(m.reals[0].sqrt()));
        }
    }
    m
}

fn make<'a, A: AlgX>(sys: &Sys, sets: &[Set]) -> OdeIntegrator<'a, Ctx, A> {
    let mut b = OdeIntegratorBuilder::default(
        &rhs,
        Array1::from(sys.u0.clone()),
        (sys.t0, sys.t1),
        A::make(),
        Ctx::new(sys),
    );
    for s in sets {
        b = call(b, s);
    }
    b.build()
}

fn exec<A: AlgX>(c: &Build, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let m = model(A::WHICH, &c.sets);
    let mut it = make::<A>(&sys, &c.sets);
    let o = &it.opts;
    let reals = [
        o.reltol, o.abstol, o.dtstart, o.dtmax, o.safe, o.facr, o.facl, o.quot1, o.quot2, o.beta, o.fnewt,
    ];
    for k in 0..11 {
        let (g, w) = (reals[k], m.reals[k]);
        if !(g == w || (g - w).abs() <= 1e-12 * w.abs() || (g.is_nan() && w.is_nan())) {
            return Err(format!("{} is {:e} instead of {:e}", REALS[k], g, w));
        }
    }
    let counts = [o.max_steps, o.max_newt_iter, o.max_stiff];
    for k in 0..3 {
        if counts[k] != m.counts[k] {
            return Err(format!("{} is {} instead of {}", COUNTS[k], counts[k], m.counts[k]));
        }
    }
    let flags = [o.dense, o.modern_pred, o.use_ext_col, o.hess];
    for k in 0..4 {
        if flags[k] != m.flags[k] {
            return Err(format!("{} is {} instead of {}", FLAGS[k], flags[k], m.flags[k]));
        }
    }
    let dt = m.reals[2].abs().min(m.reals[3]);
    let tdir = (sys.t1 - sys.t0).signum();
    if !((it.dt - tdir * dt).abs() <= 1e-12 * dt) {
        return Err(format!("initial step {:e} instead of {:e}", it.dt, tdir * dt));
    }
    if it.t != sys.t0 || it.tfinal != sys.t1 || it.u.to_vec() != sys.u0 || it.tdir != tdir {
        return Err("interval, direction or initial state not as given".into());
    }
    if it.tprev != sys.t0 || it.uprev.to_vec() != sys.u0 {
        return Err("previous time or state of a new integrator is not the initial one".into());
    }
    if it.sol.ts != vec![sys.t0] || it.sol.us.len() != 1 || it.sol.us[0].to_vec() != sys.u0 {
        return Err("the solution does not start with the initial point".into());
    }
    if code(&it.sol.retcode) != Code::Continue {
        return Err("a new integration is not to be continued".into());
    }
    if it.callback.is_some() != m.funs[2].is_some() {
        return Err("a callback given is missing, or one not given is there".into());
    }
    if c.odd {
        // values no integration could be run with are only carried
        obs.nontrivial = c.sets.len() > 1;
        obs.label("values out of the ordinary");
        return Ok(());
    }
    // the same calls in another order, later calls for one option kept later
    let mut order: Vec<usize> = (0..c.sets.len()).collect();
    order.sort_by_key(|&i| {
        // calls for one option share a key
        let first = c.sets.iter().position(|s| slot(s) == slot(&c.sets[i])).unwrap();
        (c.keys.get(first).cloned().unwrap_or(0), i)
    });
    let other: Vec<Set> = order.iter().map(|&i| c.sets[i].clone()).collect();
    let mut two = make::<A>(&sys, &other);
    for _ in 0..25 {
        let (a, b) = (it.step(), two.step());
        if a != b {
            return Err(format!("order of calls matters: step gives {:?} and {:?}", a, b));
        }
        if a.is_none() {
            break;
        }
    }
    let (a, b) = (snapshot(&it, 0, 0), snapshot(&two, 0, 0));
    let same = a.ts == b.ts
        && a.code == b.code
        && a.us.iter().flatten().map(|v| v.to_bits()).eq(b.us.iter().flatten().map(|v| v.to_bits()));
    if !same {
        return Err("order of calls matters for the run".into());
    }
    // functions: the last one given is used
    if let Some(v) = m.funs[2] {
        if it.params.hostile.s0 != if v { 2.0 } else { 1.0 } {
            return Err("the last callback given is not the one called".into());
        }
    }
    if A::WHICH == Which::Ra {
        match m.funs[0] {
            None if a.nj > 0 => return Err("a Jacobian not given was called".into()),
            Some(v) if a.nj == 0 || (it.params.mark.get() == 1) != v => {
                return Err("the last Jacobian given is not the one called".into());
            }
            _ => {}
        }
    }
    obs.nontrivial = c.sets.len() > 1;
    obs.label(&format!("{:?}", A::WHICH));
    obs.count("settings", c.sets.len() as u64);
    if order.windows(2).any(|w| w[0] > w[1]) {
        obs.label("reordered");
    }
    let mut slots: Vec<_> = c.sets.iter().map(slot).collect();
    slots.sort();
    if slots.windows(2).any(|w| w[0] == w[1]) {
        obs.label("option set twice");
    }
    Ok(())
}

fn c21_case(c: &Build, obs: &mut Obs) -> Result<(), String> {
    match c.alg {
        Which::Dp => exec::<DormandPrince5>(c, obs),
        Which::Ra => exec::<Radau5>(c, obs),
    }
}

fn real() -> BoxedStrategy<Set> {
    (0usize..11)
        .prop_flat_map(|k| {
            let v = match k {
                // below 1e-13 rounding bounds the derived Newton tolerance from below
                0 => prop_oneof![5 => grid((-9.0, -1.0)), 1 => grid((-15.6, -9.0)), 1 => grid((-1.0, 0.9))]
                    .prop_map(|x| 10f64.powf(x))
                    .boxed(),
                1 => prop_oneof![1 => Just(0.0), 8 => grid((-20.0, 1.0)).prop_map(|x| 10f64.powf(x))].boxed(),
                2 => grid((-9.0, 1.0)).prop_map(|x| 10f64.powf(x)).boxed(),
                3 => grid((-6.0, 3.0)).prop_map(|x| 10f64.powf(x)).boxed(),
                4 => grid((0.1, 0.99)).boxed(),
                5 | 6 => grid((0.1, 10.0)).boxed(),
                7 => grid((0.5, 1.0)).boxed(),
                8 => grid((1.0, 2.0)).boxed(),
                9 => grid((0.0, 0.2)).boxed(),
                // zero asks for the derived one
                _ => prop_oneof![1 => Just(0.0), 8 => grid((-6.0, 0.0)).prop_map(|x| 10f64.powf(x))].boxed(),
            };
            v.prop_map(move |v| Set::Real(k, v))
        })
        .boxed()
}

/// any value of any magnitude, tolerances and maximum step positive
fn odd() -> BoxedStrategy<Set> {
    let size = prop_oneof![1 => Just(0.0), 3 => grid((-3.0, 3.0)), 1 => grid((-30.0, 30.0)).prop_map(|x| 10f64.powf(x))];
    prop_oneof![
        5 => (0usize..11, size, any::<bool>()).prop_map(|(k, v, minus)| {
            let v: f64 = match k {
                0 | 3 => v.abs().max(1e-30),
                1 => v.abs(),
                _ => if minus { -v } else { v },
            };
            Set::Real(k, v)
        }),
        1 => (0usize..3, prop_oneof![Just(0usize), Just(1), Just(1 << 40)]).prop_map(|(k, v)| Set::Count(k, v)),
    ]
    .boxed()
}

pub fn c21(env: &Env) -> i32 {
    let strat = || {
        let set = prop_oneof![
            6 => real(),
            1 => (0usize..3, 1usize..500).prop_map(|(k, v)| Set::Count(k, v)),
            1 => (0usize..3, 500usize..2_000_000_000).prop_map(|(k, v)| Set::Count(k, v)),
            2 => (0usize..4, any::<bool>()).prop_map(|(k, v)| Set::Flag(k, v)),
            2 => (0usize..3, any::<bool>()).prop_map(|(k, v)| Set::Fun(k, v)),
        ];
        (
            which(),
            prob(&ProbCfg {
                kinds: vec![(3, Kind::Lin), (1, Kind::Net), (1, Kind::Pendulum)],
                nmax: 4,
                kappa: (-1.0, 1.0),
                wide: false,
                ..Default::default()
            }),
            prop::collection::vec(set, 0..20),
            prop::collection::vec(any::<u32>(), 20),
            prop::option::weighted(0.2, prop::collection::vec((odd(), 0usize..20), 1..5)),
        )
            .prop_map(|(alg, prob, mut sets, keys, strange)| {
                // growth and shrink limits are written the other way round for the implicit method
                for s in sets.iter_mut() {
                    if let Set::Real(k @ 5..=6, v) = s {
                        let above = (*k == 5) == (alg == Which::Dp);
                        *v = if above { 1.0 + *v } else { *v / 11.0 };
                    }
                }
                let odd = strange.is_some();
                for (s, at) in strange.unwrap_or_default() {
                    let at = at.min(sets.len());
                    sets.insert(at, s);
                }
                Build { alg, prob, sets, keys, odd }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C21",
            rule: "more than one setting",
            quick: 100000,
            thorough: 3000000,
            strategy: &strat,
            case: &c21_case,
            assumptions: &["the implicit method works with 0.1 reltol^(2/3), the absolute tolerance in proportion, and a derived Newton tolerance"],
        },
    )
}
