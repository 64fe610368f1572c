//! C32: right-hand sides without a value away from the solution.
use crate::accuracy::{allowed, chance, kinds, settings, steep, worst, Case};
use crate::drive::*;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::radau::Radau5;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::Sys;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fenced {
    base: Case,
    alg: Which,
    /// log10 of the margin relative to the solution
    margin: f64,
    from: u8,
    value: u8,
    all: bool,
    /// only evaluations at the beginning of a step are restricted
    only: bool,
    /// log10 of a first step beyond what the tolerance can be met with
    long: Option<f64>,
}

struct Attempt {
    size: f64,
    /// an evaluation of the iteration, or of the second estimate, had no value
    stages: bool,
    again: bool,
}

/// Attempts of a step from `t`.
fn attempts(w: Which, t: f64, log: &[Call], out: &dyn Fn(&Call) -> bool) -> Vec<Attempt> {
    let mut v: Vec<Attempt> = vec![];
    match w {
        Which::Dp => {
            for c in log.chunks(6) {
                v.push(Attempt { size: c[5].t - t, stages: c.iter().any(|x| out(x)), again: false });
            }
        }
        Which::Ra => {
            let r = 6f64.sqrt();
            let (c1, c2) = ((4.0 - r) / 10.0, (4.0 + r) / 10.0);
            let mut i = 0;
            while i < log.len() {
                let c = &log[i..(i + 3).min(log.len())];
                let h = if c.len() == 3 { c[2].t - t } else { 0.0 };
                let three = h != 0.0
                    && c.iter().all(|x| !x.jac)
                    && ((c[0].t - t) / h - c1).abs() < 1e-4
                    && ((c[1].t - t) / h - c2).abs() < 1e-4;
                if !three {
                    if c[0].t == t && !c[0].jac && out(&c[0]) {
                        if let Some(a) = v.last_mut() {
                            a.again = true;
                        }
                    }
                    i += 1;
                    continue;
                }
                let bad = c.iter().any(|x| out(x));
                match v.last_mut() {
                    Some(a) if a.size == h => a.stages |= bad,
                    _ => v.push(Attempt { size: h, stages: bad, again: false }),
                }
                i += 3;
            }
        }
    }
    v
}

fn steps<A: AlgX>(sys: &Sys, fence: &Fence, a: &Abs, obs: &mut Obs) -> Result<Out, String> {
    let mut ctx = Ctx::new(sys);
    ctx.fence = Some(fence.clone());
    ctx.calls = Some(Default::default());
    let mut it = builder::<A>(ctx, &sys.u0, (sys.t0, sys.t1), a).build();
    let (nf0, nj0) = (it.params.nf.get(), it.params.nj.get());
    let mut met = 0;
    let mut first = true;
    loop {
        it.params.calls.as_ref().unwrap().borrow_mut().clear();
        let t = it.t;
        if let Some(x) = &it.params.fence.as_ref().unwrap().only {
            x.set(t);
        }
        if let Some(x) = &fence.only {
            x.set(t);
        }
        let more = it.step().is_some();
        {
            let log = it.params.calls.as_ref().unwrap().borrow();
            if log.iter().any(|c| !c.jac && fence.outside(sys, c.t, &c.u)) {
                let v = attempts(A::WHICH, t, &log, &|c| fence.outside(sys, c.t, &c.u));
                for (k, p) in v.iter().enumerate() {
                    if !p.stages && !p.again {
                        continue;
                    }
                    met += 1;
                    if k + 1 == v.len() {
                        if it.sol.ts.last() != Some(&t) {
                            return Err(format!("step from {:e} accepted with an undefined evaluation", t));
                        }
                        continue;
                    }
                    let want = match A::WHICH {
                        Which::Dp => a.shrink_limit(A::WHICH),
                        Which::Ra if p.stages => 0.5,
                        Which::Ra if first => 0.1,
                        Which::Ra => a.shrink_limit(A::WHICH),
                    };
                    let q = v[k + 1].size / p.size;
                    let slack = 1e-9 + 4.0 * f64::EPSILON * (t.abs() / v[k + 1].size.abs());
                    if slack < 1e-3 && (q / want - 1.0).abs() > slack {
                        return Err(format!(
                            "attempt {} from {:e} met an undefined value: next size {} instead of {} of it",
                            k, t, q, want
                        ));
                    }
                    obs.count(if p.stages { "attempts given up" } else { "estimates given up" }, 1);
                }
            }
        }
        first &= it.sol.ts.len() < 2;
        if !more {
            break;
        }
    }
    obs.nontrivial = met > 0;
    obs.long(it.sol.ts.len());
    Ok(snapshot(&it, nf0, nj0))
}

fn c32_case(c: &Fenced, obs: &mut Obs) -> Result<(), String> {
    let w = c.alg;
    let sys = Sys::new(&c.base.prob);
    let mut a = settings(&c.base, w, &sys);
    a.max_steps = Some(50000);
    if let Some(x) = c.long {
        a.dtstart = Some(sys.length() * 10f64.powf(x));
    }
    let (rt, at) = if w == Which::Ra { a.radau_tols() } else { (a.reltol, a.abstol) };
    let bound = allowed(&c.base, w, &sys);
    let big = (0..=64)
        .flat_map(|k| sys.exact(sys.t0 + (sys.t1 - sys.t0) * k as f64 / 64.0).unwrap())
        .fold(0.0f64, |m, v| m.max(v.abs()));
    let del = (f64::EPSILON * big.max(1e-5)).sqrt();
    // without extrapolated starting values the steps are limited by the margin itself
    let least = if w == Which::Ra && a.ext_col == Some(false) { -2.5 } else { -4.5 };
    let fence = Fence {
        margin: (big * 10f64.powf(if c.only && w == Which::Ra { -15.0 } else { c.margin.max(least) })).max(10.0 * bound * (at + rt * big)).max(100.0 * del),
        from: c.from as usize % sys.n,
        value: match c.value {
            0 => f64::NAN,
            1 => f64::INFINITY,
            _ => f64::NEG_INFINITY,
        },
        all: c.all,
        only: if c.only && w == Which::Ra { Some(Default::default()) } else { None },
    };
    let o = match w {
        Which::Dp => steps::<DormandPrince5>(&sys, &fence, &a, obs)?,
        Which::Ra => steps::<Radau5>(&sys, &fence, &a, obs)?,
    };
    obs.label(&format!("{:?} {:?}", w, o.code));
    obs.label(&format!("value {}", fence.value));
    if obs.nontrivial {
        obs.label(&format!("{:?} met the limits", w));
    }
    if o.code != Code::Success {
        return Err(format!("return code {:?} after {} points", o.code, o.ts.len()));
    }
    if c.long.is_some() {
        return Ok(());
    }
    let steep = steep(&c.base, &sys);
    let (r, k) = worst(&sys, steep, rt, at, &o);
    obs.maxi("error/tolerance", r);
    let go = |b: &Abs| {
        let mut obs = Obs::default();
        let o = match w {
            Which::Dp => steps::<DormandPrince5>(&sys, &fence, b, &mut obs),
            Which::Ra => steps::<Radau5>(&sys, &fence, b, &mut obs),
        };
        o.unwrap_or_else(|_| Out { code: Code::Continue, ..run(w, &sys, b) })
    };
    if r > bound && r < 1e5 && chance(w, &sys, &a, steep, bound, &go) {
        obs.label("a large error by chance");
        return Ok(());
    }
    if !(r <= bound) {
        return Err(format!("error is {:.3e} tolerances at point {} of {} (t={:e})", r, k, o.ts.len(), o.ts[k]));
    }
    Ok(())
}

pub fn c32(env: &Env) -> i32 {
    let strat = || {
        let p = |top| prob(&ProbCfg { kinds: kinds(), nmax: 6, rate: (-0.5, top), ..Default::default() });
        let dp = (p(1.0), opt_dp(&OptCfg { rtol: (-10.0, -4.0), ..Default::default() }))
            .prop_map(|(p, opt)| (Case { prob: calm(p, &opt), opt }, Which::Dp));
        let ra = (p(5.0), opt_ra(&OptCfg { rtol: (-9.0, -3.0), ..Default::default() }))
            .prop_map(|(p, opt)| (Case { prob: fit(p, &opt), opt }, Which::Ra));
        (prop_oneof![dp, ra], grid((-4.5, -1.0)), any::<u8>(), 0u8..3, any::<bool>(), prop::bool::weighted(0.3), prop_oneof![5 => Just(None), 1 => grid((-3.0, 0.0)).prop_map(Some)])
            .prop_map(|((base, alg), margin, from, value, all, only, long)| Fenced { base, alg, margin, from, value, all, only, long })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C32",
            rule: "runs in which an evaluation had no value",
            quick: 60000,
            thorough: 1000000,
            strategy: &strat,
            case: &c32_case,
            assumptions: &["the right-hand side is defined within at least ten times the error allowed around the exact solution"],
        },
    )
}
