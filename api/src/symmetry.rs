//! C10, C11, C12: runs that must agree with one another.
use crate::drive::*;
use crate::mesh::{all_kinds, either, Case};
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::{OdeIntegrator, OdeStatistics};
use cyphus_diffeq::radau::Radau5;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Kind, Prob, Sys};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn work(s: &OdeStatistics) -> Vec<usize> {
    vec![
        s.steps,
        s.function_evals,
        s.jacobian_evals,
        s.decompositions,
        s.linear_solves,
        s.accepts,
        s.rejects,
    ]
}

fn labels(c: &Case, o: &Out, obs: &mut Obs) {
    obs.nontrivial = o.ts.len() > 4;
    obs.long(o.ts.len());
    obs.label(&format!(
        "{:?} {}",
        c.alg,
        if c.opt.jac { "Jacobian supplied" } else { "" }
    ));
    obs.label(&format!("kind {:?}", c.prob.kind));
    obs.label(if c.prob.back { "backward" } else { "forward" });
    if o.st.rejects > 0 {
        obs.label("with rejections");
    }
}

fn c10_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let a = Abs::new(&c.opt, &sys);
    let o = run(c.alg, &sys, &a);
    labels(c, &o, obs);
    let xf = Xf {
        mirror: true,
        ..Xf::id(sys.n)
    };
    let mut p = run_xf(c.alg, &sys, &xf, &a);
    for t in p.ts.iter_mut() {
        *t = -*t;
    }
    if let Some(d) = differ(&o, &p, 1e-10) {
        return Err(format!("mirrored run differs: {}", d));
    }
    for k in 0..2 {
        let (x, y) = (o.dts[k], -p.dts[k]);
        if !((x - y).abs() <= 1e-10 * x.abs().max(y.abs())) {
            return Err(format!("mirrored run leaves other step sizes: {:e} and {:e}", x, y));
        }
    }
    if work(&o.st) != work(&p.st) {
        return Err(format!(
            "mirrored run reports other work: {:?} and {:?}",
            o.st, p.st
        ));
    }
    Ok(())
}

pub fn c10(env: &Env) -> i32 {
    let strat = || {
        either(
            ProbCfg {
                kinds: all_kinds(),
                ..Default::default()
            },
            OptCfg {
                rtol: (-8.0, -2.0),
                few: 0.02,
                ..Default::default()
            },
        )
    };
    engine::runner::run(
        env,
        &Def {
            id: "C10",
            rule: "a run with more than four recorded points",
            quick: 100000,
            thorough: 2000000,
            strategy: &strat,
            case: &c10_case,
            assumptions: &["states and times compared to 1e-10 relative; the arithmetic is sign symmetric"],
        },
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trans {
    pub alg: Which,
    pub prob: Prob,
    pub opt: Opt,
    pub uexp: i32,
    pub neg: bool,
    pub texp: i32,
    pub perm: Vec<usize>,
    pub copies: usize,
    pub shift: f64,
}

fn autonomous(k: Kind) -> bool {
    matches!(
        k,
        Kind::Vdp | Kind::Lotka | Kind::Brussel | Kind::Robertson | Kind::Lorenz | Kind::Conserve
    )
}

fn c11_case(c: &Trans, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let mut a = Abs::new(&c.opt, &sys);
    if a.dtstart.is_none() {
        a.dtstart = Some(1e-3 * (sys.t1 - sys.t0).abs());
    }
    let mut perm: Vec<usize> = (0..sys.n).collect();
    for (i, &k) in c.perm.iter().enumerate().take(sys.n) {
        perm.swap(i, k % sys.n);
    }
    let uscale = 2f64.powi(c.uexp) * if c.neg { -1.0 } else { 1.0 };
    let tscale = 2f64.powi(c.texp);
    let shift = if autonomous(sys.kind) {
        c.shift * sys.span / sys.kappa
    } else {
        0.0
    };
    if uscale != 1.0 && c.alg == Which::Ra {
        // the increment of a difference quotient has an absolute part
        a.jac = true;
    }
    let xf = Xf {
        perm,
        copies: c.copies,
        uscale,
        tscale,
        tshift: shift,
        mirror: false,
    };
    let mut b = a.clone();
    b.abstol = a.abstol * uscale.abs();
    b.dtstart = a.dtstart.map(|v| v * tscale);
    b.dtmax = a.dtmax.map(|v| v * tscale);
    let moved = xf.perm.iter().enumerate().any(|(i, p)| i != *p);
    let exact = !moved && c.copies == 1 && shift == 0.0;
    let o = run(c.alg, &sys, &a);
    let p = run_xf(c.alg, &sys, &xf, &b);
    obs.nontrivial = o.ts.len() > 4 && (uscale != 1.0 || tscale != 1.0 || !exact);
    obs.long(o.ts.len());
    obs.label(&format!("{:?}", c.alg));
    for (f, l) in [
        (moved, "reordered"),
        (c.copies > 1, "copies"),
        (shift != 0.0, "shifted"),
        (uscale.abs() != 1.0, "state scaled"),
        (c.neg, "negated"),
        (tscale != 1.0, "time scaled"),
        (exact, "exact"),
    ] {
        if f {
            obs.label(l);
        }
    }
    // map the transformed run back
    let mut back = p.clone();
    let n = sys.n;
    for t in back.ts.iter_mut() {
        *t = *t / tscale - shift;
    }
    let tol = if exact { 1e-12 } else { 1e-5 };
    for k in 0..c.copies {
        back.us =
            p.us.iter()
                .map(|u| (0..n).map(|i| u[k * n + xf.perm[i]] / uscale).collect())
                .collect();
        let mut d = differ(&o, &back, tol);
        if d.is_none() && work(&o.st) != work(&p.st) {
            d = Some(format!("work {:?} and {:?}", o.st, p.st));
        }
        if let Some(d) = d {
            if !exact && c.alg == Which::Dp && fragile(&sys, &a, &o) {
                // an unstable problem carries rounding to the recorded points
                obs.label("fragile");
                break;
            }
            if exact || c.alg == Which::Dp || !alike(&o, &back, &a) {
                return Err(format!("transformed run differs (copy {}): {}", k, d));
            }
            // rounding may decide whether the Newton iteration goes on
            obs.label("alike only");
            break;
        }
    }
    Ok(())
}

/// whether starting points a rounding error away lead to a different run
fn fragile(sys: &Sys, opt: &Abs, o: &Out) -> bool {
    (1..=6).any(|k| {
        let mut near = sys.clone();
        for (i, u) in near.u0.iter_mut().enumerate() {
            *u *= 1.0 + f64::EPSILON * ((i + k) % 3) as f64 * if k > 3 { -1.0 } else { 1.0 };
        }
        differ(o, &run(Which::Dp, &near, opt), 1e-5).is_some()
    })
}

/// same end within the tolerance, similar number of steps
fn alike(a: &Out, b: &Out, opt: &Abs) -> bool {
    let (rt, at) = opt.radau_tols();
    let big = running_max(&a.us);
    let close = (0..big.len()).all(|i| {
        let d = (a.us.last().unwrap()[i] - b.us.last().unwrap()[i]).abs();
        d <= 100.0 * (at + rt * big.iter().cloned().fold(0.0, f64::max))
    });
    let (x, y) = (a.ts.len() as f64, b.ts.len() as f64);
    a.code == b.code && close && (x - y).abs() <= 5.0 + 0.2 * x.max(y)
}

pub fn c11(env: &Env) -> i32 {
    let strat = || {
        let base = either(
            ProbCfg {
                kinds: all_kinds(),
                nmax: 6,
                rate: (-0.5, 1.0),
                // stacked up to three times
                large: engine::sys::WIDTH / 3,
                ..Default::default()
            },
            OptCfg {
                rtol: (-6.0, -2.0),
                ..Default::default()
            },
        );
        (
            base,
            prop_oneof![2 => Just(0), 2 => -20i32..=20, 1 => -120i32..=120],
            any::<bool>(),
            prop_oneof![2 => Just(0), 2 => -10i32..=10, 1 => -120i32..=120],
            prop_oneof![Just(vec![]), prop::collection::vec(0usize..16, 8)],
            prop_oneof![2 => Just(1usize), 1 => 2usize..=3],
            prop_oneof![Just(0.0), grid((-4.0, 4.0))],
        )
            .prop_map(|(mut b, uexp, neg, texp, perm, copies, shift)| {
                // mass-action kinetics is unstable where a concentration turns negative
                if b.alg == Which::Ra && b.prob.kind == Kind::Conserve {
                    b.prob.kind = Kind::Brussel;
                }
                Trans {
                    alg: b.alg,
                    prob: b.prob,
                    opt: b.opt,
                    uexp,
                    neg,
                    texp,
                    perm,
                    copies,
                    shift,
                }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C11",
            rule: "a run with more than four recorded points under a transformation other than the identity",
            quick: 60000,
            thorough: 1000000,
            strategy: &strat,
            case: &c11_case,
            assumptions: &["scalings are powers of two, so compared to 1e-12; the other transformations to 1e-5 of the largest state, because they change the order of summation"],
        },
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Passive {
    pub base: Case,
    pub dense: bool,
    pub callback: bool,
    pub dfdt: bool,
    pub dfdu: bool,
    pub beta: Option<f64>,
    pub max_stiff: Option<usize>,
    pub hess: Option<bool>,
    pub max_newt: Option<usize>,
    pub modern: Option<bool>,
    pub quot: Option<(f64, f64)>,
    pub fnewt: Option<f64>,
    pub ext_col: Option<bool>,
}

fn noop<'a, A: AlgX>(_: &mut OdeIntegrator<'a, Ctx, A>) {}

fn passive<A: AlgX>(c: &Passive, sys: &Sys, a: &Abs) -> Out {
    let mut b = builder::<A>(Ctx::new(sys), &sys.u0, (sys.t0, sys.t1), a);
    if c.dense {
        b = b.dense(true);
    }
    if c.callback {
        b = b.callback(&noop::<A>);
    }
    if c.dfdt {
        b = b.dfdt(&zero_dfdt);
    }
    match A::WHICH {
        Which::Dp => {
            if c.dfdu {
                b = b.dfdu(&jac);
            }
            if let Some(v) = c.hess {
                b = b.hess(v);
            }
            if let Some(v) = c.max_newt {
                b = b.max_newt_iter(v);
            }
            if let Some(v) = c.modern {
                b = b.modern_pred(v);
            }
            if let Some((v, w)) = c.quot {
                b = b.quot1(v).quot2(w);
            }
            if let Some(v) = c.fnewt {
                b = b.fnewt(v);
            }
            if let Some(v) = c.ext_col {
                b = b.use_ext_col(v);
            }
        }
        Which::Ra => {
            if let Some(v) = c.beta {
                b = b.beta(v);
            }
            if let Some(v) = c.max_stiff {
                b = b.max_stiff(v);
            }
        }
    }
    let mut it = b.build();
    it.integrate();
    snapshot(&it, 0, 0)
}

fn c12_case(c: &Passive, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.base.prob);
    let mut a = Abs::new(&c.base.opt, &sys);
    a.idle = 0;
    let o = run(c.base.alg, &sys, &a);
    labels(&c.base, &o, obs);
    let p = match c.base.alg {
        Which::Dp => passive::<DormandPrince5>(c, &sys, &a),
        Which::Ra => passive::<Radau5>(c, &sys, &a),
    };
    for (f, l) in [
        (c.dense, "dense"),
        (c.callback, "callback"),
        (c.dfdt, "time derivative"),
        (c.dfdu, "Jacobian"),
    ] {
        if f {
            obs.label(l);
        }
    }
    if let Some(d) = differ(&o, &p, 0.0) {
        // a callback may have values recomputed by another formula
        if rounding(&o, &p) {
            obs.label("differs by rounding");
            return Ok(());
        }
        return Err(format!("passive options change the run: {}", d));
    }
    Ok(())
}

pub fn c12(env: &Env) -> i32 {
    let strat = || {
        let base = either(
            ProbCfg {
                kinds: all_kinds(),
                ..Default::default()
            },
            OptCfg {
                rtol: (-7.0, -2.0),
                few: 0.02,
                ..Default::default()
            },
        );
        let o = |s: BoxedStrategy<f64>| prop::option::of(s);
        (
            (base, any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()),
            (
                o(grid((0.0, 1.0)).boxed()),
                prop::option::of(0usize..2000),
                prop::option::of(any::<bool>()),
                prop::option::of(0usize..20),
                prop::option::of(any::<bool>()),
                prop::option::of((grid((0.1, 1.0)), grid((1.0, 3.0)))),
                o(grid((0.01, 1.0)).boxed()),
                prop::option::of(any::<bool>()),
            ),
        )
            .prop_map(
                |(
                    (base, dense, callback, dfdt, dfdu),
                    (beta, max_stiff, hess, max_newt, modern, quot, fnewt, ext_col),
                )| Passive {
                    base,
                    dense,
                    callback,
                    dfdt,
                    dfdu,
                    beta,
                    max_stiff,
                    hess,
                    max_newt,
                    modern,
                    quot,
                    fnewt,
                    ext_col,
                },
            )
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C12",
            rule: "a run with more than four recorded points",
            quick: 100000,
            thorough: 2000000,
            strategy: &strat,
            case: &c12_case,
            assumptions: &["compared exactly"],
        },
    )
}
