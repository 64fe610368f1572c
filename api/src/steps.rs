//! C03, C04: every recorded step against a reference step of the method.
use crate::drive::*;
use engine::la::wrms;
use engine::refs;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Kind, Prob, Sys};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prob: Prob,
    pub opt: Opt,
}

/// Outcome of comparing one recorded step with the reference.
pub struct DpCheck {
    /// deviation in units of the rounding allowance
    pub dev: f64,
    /// weighted error estimate
    pub err: f64,
    /// slack on the estimate due to rounding
    pub slack: f64,
}

/// Compare a recorded explicit step (t0,u0) -> (t1,u1).
pub fn dp_check(ctx: &Ctx, a: &Abs, t0: f64, u0: &[f64], t1: f64, u1: &[f64]) -> DpCheck {
    let n = u0.len();
    let f = |t: f64, u: &[f64], o: &mut [f64]| ctx.eval(t, u, o);
    let h = t1 - t0;
    let r = refs::dp_step(&f, t0, u0, h);
    // Rounding: of the recorded times (h is known to eps*|t|), of each stage.
    let eps = f64::EPSILON;
    let terr = eps * (t0.abs().max(t1.abs()));
    let mut dev = 0.0f64;
    let mut round = vec![0.0; n];
    let un = u0.iter().chain(&r.u).fold(0.0f64, |m, v| m.max(v.abs()));
    let kn = r.k.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
    // how much one step amplifies perturbations of its stages
    let amp = {
        let mut j = vec![0.0; n * n];
        ctx.eval_jac(t0, u0, &mut j);
        let l = (0..n)
            .map(|i| j[i * n..(i + 1) * n].iter().map(|v| v.abs()).sum::<f64>())
            .fold(0.0, f64::max)
            * h.abs();
        (1.0 + l).powi(6).min(1e6)
    };
    for i in 0..n {
        round[i] = amp * (100.0 * eps * (un + h.abs() * kn) + 20.0 * terr * kn) + 1e-300;
        // a jump in f over the time uncertainty is covered by kn above
        dev = dev.max((r.u[i] - u1[i]).abs() / round[i]);
        if !(r.u[i] - u1[i]).is_finite() {
            dev = f64::INFINITY;
        }
    }
    let w: Vec<f64> =
        (0..n).map(|i| a.abstol + a.reltol * u0[i].abs().max(u1[i].abs())).collect();
    DpCheck { dev, err: wrms(&r.err, &w), slack: wrms(&round, &w) }
}

fn c03_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let a = Abs::new(&c.opt, &sys);
    let o = run(Which::Dp, &sys, &a);
    let ctx = Ctx::new(&sys);
    obs.nontrivial = o.ts.len() > 5;
    obs.label(&format!("kind {:?}", c.prob.kind));
    if o.st.rejects > 0 {
        obs.label("with rejections");
    }
    if o.ts.len() > 1000 {
        obs.label("more than 1000 steps");
    }
    obs.label(if c.prob.back { "backward" } else { "forward" });
    if o.ts.len() < 2 {
        return Err(format!("no step was taken ({:?})", o.code));
    }
    for k in 1..o.ts.len() {
        let d = dp_check(&ctx, &a, o.ts[k - 1], &o.us[k - 1], o.ts[k], &o.us[k]);
        obs.count("steps compared", 1);
        obs.maxi("deviation/rounding", d.dev);
        obs.maxi("error estimate", d.err - d.slack);
        if !(d.dev <= 1.0) {
            return Err(format!(
                "step {} (t={:e} to {:e}) deviates from the method by {:.3e} rounding allowances",
                k, o.ts[k - 1], o.ts[k], d.dev
            ));
        }
        if !(d.err <= 1.0 + 1e-6 + d.slack) {
            return Err(format!(
                "accepted step {} (t={:e} to {:e}) has error estimate {}",
                k, o.ts[k - 1], o.ts[k], d.err
            ));
        }
    }
    Ok(())
}

pub fn c03(env: &Env) -> i32 {
    let strat = || {
        let p = prob(&ProbCfg {
            kinds: vec![
                (3, Kind::Lin),
                (3, Kind::Diag),
                (1, Kind::Quad),
                (4, Kind::Net),
                (1, Kind::Vdp),
                (1, Kind::Lotka),
                (1, Kind::Pendulum),
                (1, Kind::Brussel),
                (1, Kind::Lorenz),
                (1, Kind::Conserve),
            ],
            nmax: 12,
            rate: (-0.5, 1.5),
            ..Default::default()
        });
        let o = opt_dp(&OptCfg { rtol: (-10.0, -2.0), aratio: (-6.0, 0.5), ..Default::default() });
        (p, o).prop_map(|(prob, opt)| Case { prob, opt }).boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C03",
            rule: "a run with more than five accepted steps",
            quick: 100000,
            thorough: 2000000,
            strategy: &strat,
            case: &c03_case,
            assumptions: &["rounding allowance: 100 eps (|u| + h|f|) + 20 eps |t| |f|, times the step's stage amplification"],
        },
    )
}

/// Outcome of comparing one recorded implicit step.
pub struct RaCheck {
    pub dev: f64,
    /// plain and twice filtered error estimate (constant Jacobian only)
    pub err: Option<(f64, f64)>,
    pub slack: f64,
    /// step times uncertainty of a difference Jacobian, and largest state in tolerances
    pub quot: f64,
    pub high: f64,
}

pub fn ra_check(
    ctx: &Ctx,
    a: &Abs,
    t0: f64,
    u0: &[f64],
    t1: f64,
    u1: &[f64],
) -> Option<RaCheck> {
    let n = u0.len();
    let (rt, at) = a.radau_tols();
    let w: Vec<f64> = (0..n).map(|i| at + rt * u0[i].abs()).collect();
    let f = |t: f64, u: &[f64], o: &mut [f64]| ctx.eval(t, u, o);
    let j = |t: f64, u: &[f64], o: &mut [f64]| ctx.eval_jac(t, u, o);
    let h = t1 - t0;
    // start from the straight line to the recorded state
    let (c, _) = refs::radau_tableau();
    let g = |s: usize| (0..n).map(|i| c[s] * (u1[i] - u0[i])).collect::<Vec<f64>>();
    let r = refs::radau_step(&f, &j, t0, u0, h, [g(0), g(1), g(2)], &w, 1e-9)?;
    let d: Vec<f64> = (0..n).map(|i| u0[i] + r.z[2][i] - u1[i]).collect();
    let eps = f64::EPSILON;
    let (mut fu, mut fv) = (vec![0.0; n], vec![0.0; n]);
    ctx.eval(t0, u0, &mut fu);
    ctx.eval(t1, u1, &mut fv);
    let fm = fu.iter().chain(&fv).fold(0.0f64, |m, v| m.max(v.abs()));
    let terr = eps * t0.abs().max(t1.abs());
    let un = u0.iter().chain(u1).fold(0.0f64, |m, v| m.max(v.abs()));
    let round: Vec<f64> = (0..n).map(|_| 1000.0 * eps * un + 20.0 * terr * fm).collect();
    let mut jm = vec![0.0; n * n];
    ctx.eval_jac(t0, u0, &mut jm);
    let jn = (0..n).map(|i| (0..n).map(|k| jm[i * n + k].abs()).sum()).fold(0.0f64, f64::max);
    let err = if ctx.sys.constant_jacobian() {
        let mut f0 = vec![0.0; n];
        ctx.eval(t0, u0, &mut f0);
        let e1 = refs::radau_err(n, &jm, h, &r.z, &f0)?;
        let y: Vec<f64> = (0..n).map(|i| u0[i] + e1[i]).collect();
        ctx.eval(t0, &y, &mut f0);
        let e2 = refs::radau_err(n, &jm, h, &r.z, &f0)?;
        Some((wrms(&e1, &w), wrms(&e2, &w)))
    } else {
        None
    };
    let least = u0.iter().fold(f64::INFINITY, |m, v| m.min(v.abs()));
    let quot = h.abs() * eps * fm.max(jn * un) / (eps * least.max(1e-5)).sqrt();
    let high = wrms(&vec![un; n], &w);
    Some(RaCheck { dev: wrms(&d, &w), err, slack: wrms(&round, &w), quot, high })
}

fn c04_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let mut a = Abs::new(&c.opt, &sys);
    if !sys.constant_jacobian() {
        let h = a.dtstart.unwrap_or(1e-6);
        a.dtstart = Some(h.min(0.1 / (10f64.powf(c.prob.rate.max(0.5)) * sys.kappa)));
    }
    let o = run_steps(Which::Ra, &sys, &a);
    let ctx = Ctx::new(&sys);
    let fnewt = a.radau_fnewt();
    obs.nontrivial = o.ts.len() > 5;
    obs.label(&format!("kind {:?}", c.prob.kind));
    if o.st.rejects > 0 {
        obs.label("with rejections");
    }
    if o.ts.len() > 1000 {
        obs.label("more than 1000 steps");
    }
    if o.st.steps > o.st.accepts + o.st.rejects {
        obs.label("with Newton failures");
    }
    if o.st.decompositions < o.st.accepts {
        obs.label("with kept factorizations");
    }
    obs.label(if c.prob.back { "backward" } else { "forward" });
    if o.ts.len() < 2 {
        return Err(format!("no step was taken ({:?})", o.code));
    }
    let mut far = vec![];
    // uncertainty of the difference Jacobians so far, relative to the step
    let mut quot = 0.0f64;
    for k in 1..o.ts.len() {
        let d = match ra_check(&ctx, &a, o.ts[k - 1], &o.us[k - 1], o.ts[k], &o.us[k]) {
            Some(d) => d,
            None => {
                obs.count("reference not converged", 1);
                continue;
            }
        };
        obs.count("steps compared", 1);
        let h = (o.ts[k] - o.ts[k - 1]).abs();
        if !c.opt.jac {
            quot = quot.max(d.quot / h);
        }
        let q = (d.dev - d.slack) / fnewt;
        let class = match (sys.constant_jacobian(), c.opt.jac) {
            (true, true) => "linear, analytic Jacobian",
            (true, false) => "linear, difference Jacobian",
            _ => "nonlinear",
        };
        obs.count(class, 1);
        obs.maxi(&format!("deviation ({})", class), d.dev - d.slack);
        obs.maxi(&format!("deviation/fnewt ({})", class), q);
        let limit = match class {
            "linear, analytic Jacobian" => 1e-5,
            "linear, difference Jacobian" => 100.0 * fnewt + quot * h * d.high,
            _ => f64::INFINITY,
        };
        let text = format!(
            "step {} (t={:e} to {:e}) deviates from the method by {:.3e} tolerances (Newton tolerance {:.1e})",
            k, o.ts[k - 1], o.ts[k], d.dev, fnewt
        );
        if !(d.dev - d.slack <= limit) {
            return Err(text);
        }
        if !(q <= 100.0) {
            far.push(text);
        }
        if quot * h > 1e-3 {
            obs.count("coarse difference Jacobian", 1);
            continue;
        }
        if let Some(e) = d.err {
            obs.count("estimates compared", 1);
            // the second estimate only counts for the first step and after rejections
            let e = if k == 1 || o.attempts(Which::Ra, k) > 1 { e.0.min(e.1) } else { e.0 };
            obs.maxi("error estimate", e);
            if !(e <= 1.0 + d.slack + 10.0 * fnewt) {
                return Err(format!(
                    "accepted step {} (t={:e} to {:e}) has error estimate {}",
                    k, o.ts[k - 1], o.ts[k], e
                ));
            }
        }
    }
    // The simplified Newton iteration of a nonlinear step may occasionally stop early.
    obs.maxi("share of far steps", (far.len() as f64 - 5.0) / o.ts.len() as f64);
    obs.count("far steps", far.len() as u64);
    if far.len() as f64 > 5.0 + 0.12 * o.ts.len() as f64 {
        return Err(format!("{} of {} steps deviate: {}", far.len(), o.ts.len() - 1, far[0]));
    }
    Ok(())
}

pub fn c04(env: &Env) -> i32 {
    let strat = || {
        let p = prob(&ProbCfg {
            kinds: vec![
                (4, Kind::Lin),
                (3, Kind::Diag),
                (1, Kind::Quad),
                (3, Kind::Net),
                (1, Kind::Vdp),
                (1, Kind::Pendulum),
                (1, Kind::Brussel),
                (1, Kind::Robertson),
                (1, Kind::Conserve),
            ],
            nmax: 8,
            rate: (-0.5, 6.0),
            ..Default::default()
        });
        let o = opt_ra(&OptCfg { rtol: (-8.0, -2.0), ..Default::default() });
        (p, o)
            .prop_map(|(prob, mut opt)| {
                if !matches!(prob.kind, Kind::Lin | Kind::Quad) {
                    opt.ext_col = None;
                }
                Case { prob: fit(prob, &opt), opt }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C04",
            rule: "a run with more than five accepted steps",
            quick: 60000,
            thorough: 800000,
            strategy: &strat,
            case: &c04_case,
            assumptions: &[],
        },
    )
}
