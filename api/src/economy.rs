//! C14, C19, C20, C22: cost and structure.
use crate::drive::*;
use crate::mesh::{either, Case};
use crate::steps::dp_check;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Kind, Sys};
use proptest::prelude::*;

fn clamp_start(a: &mut Abs, sys: &Sys, rate: f64) {
    let h = a.dtstart.unwrap_or(1e-6);
    a.dtstart = Some(h.min(0.1 / (10f64.powf(rate.max(0.5)) * sys.kappa)));
}

/// largest difference of the final states in units of the tolerance
fn final_gap(a: &Out, b: &Out, rt: f64, at: f64) -> f64 {
    let (x, y) = (a.us.last().unwrap(), b.us.last().unwrap());
    let big = running_max(&a.us).iter().cloned().fold(0.0, f64::max);
    (0..x.len()).map(|i| (x[i] - y[i]).abs() / (at + rt * big)).fold(0.0, f64::max)
}

fn c14_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let mut a = Abs::new(&c.opt, &sys);
    clamp_start(&mut a, &sys, c.prob.rate);
    a.jac = true;
    let o = run(Which::Ra, &sys, &a);
    a.jac = false;
    let p = run(Which::Ra, &sys, &a);
    let (rt, at) = a.radau_tols();
    obs.nontrivial = o.ts.len() > 5;
    obs.label(&format!("rate 1e{:.0}", c.prob.rate));
    obs.label(&format!("magnitude 1e{:.0}", c.prob.amp));
    if sys.u0.iter().any(|v| *v < 0.0) {
        obs.label("negative components");
    }
    if o.code != Code::Success {
        return Err(format!("exact Jacobian: {:?}", o.code));
    }
    if p.code != Code::Success {
        return Err(format!("approximated Jacobian: {:?}", p.code));
    }
    let gap = final_gap(&o, &p, rt, at);
    obs.maxi(&format!("gap {:?}", sys.kind), gap);
    let (x, y) = (o.st.steps as f64, p.st.steps as f64);
    obs.maxi("extra attempts", (y - 20.0) / x);
    let (x2, y2) = (o.st.linear_solves as f64, p.st.linear_solves as f64);
    obs.maxi("extra iterations", (y2 - 60.0) / x2);
    if !(gap <= 200.0) {
        return Err(format!("final states differ by {:.3e} tolerances", gap));
    }
    if y > 2.0 * x + 60.0 {
        return Err(format!("{} attempts with the exact, {} with the approximated Jacobian", x, y));
    }
    if y2 > 2.0 * x2 + 200.0 {
        return Err(format!("{} iterations with the exact, {} with the approximated Jacobian", x2, y2));
    }
    Ok(())
}

pub fn c14(env: &Env) -> i32 {
    let strat = || {
        (
            prob(&ProbCfg {
                kinds: vec![(4, Kind::Lin), (4, Kind::Diag), (2, Kind::Net), (1, Kind::Pendulum), (1, Kind::Brussel), (1, Kind::Vdp)],
                rate: (-0.5, 5.0),
                amp: (-3.0, 6.0),
                wide: false,
                span: (0.5, 5.0),
                ..Default::default()
            }),
            opt_ra(&OptCfg { rtol: (-7.0, -2.5), ..Default::default() }),
        )
            .prop_map(|(mut prob, mut opt)| {
                opt.ext_col = None;
                // with these two, chance decides where the step size settles
                opt.quot2 = None;
                opt.dtmax = None;
                if matches!(prob.kind, Kind::Vdp | Kind::Brussel) {
                    prob.rate = prob.rate.min(2.0);
                }
                Case { alg: Which::Ra, prob, opt }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C14",
            rule: "a run with more than five recorded points",
            quick: 60000,
            thorough: 1000000,
            strategy: &strat,
            case: &c14_case,
            assumptions: &["calibrated: 200 tolerances at the end, twice the attempts plus 60"],
        },
    )
}

fn c19_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let a = Abs::new(&c.opt, &sys);
    let o = run_steps(Which::Dp, &sys, &a);
    if o.code != Code::Success {
        return Err(format!("return code {:?}", o.code));
    }
    let ctx = Ctx::new(&sys);
    let m = o.ts.len();
    obs.nontrivial = m > 30;
    let skip = 12;
    let mut e = vec![];
    let mut attempts = 0;
    for k in 1..m {
        attempts += o.attempts(Which::Dp, k);
        if k > skip && k + 2 < m {
            let d = dp_check(&ctx, &a, o.ts[k - 1], &o.us[k - 1], o.ts[k], &o.us[k]);
            e.push(d.err.powf(0.2));
        }
    }
    obs.maxi("rejected share", (attempts as f64 - (m - 1) as f64 - 12.0) / (m - 1) as f64);
    if attempts as f64 > 1.5 * (m - 1) as f64 + 12.0 {
        return Err(format!("{} attempts for {} accepted steps", attempts, m - 1));
    }
    if e.len() >= 15 {
        e.sort_by(|x, y| x.partial_cmp(y).unwrap());
        let med = e[e.len() / 2];
        obs.maxi("1/median root error", 1.0 / med);
        obs.label("median taken");
        if !(med >= 0.5) {
            return Err(format!("median error estimate {:.3e} (fifth root {:.3})", med.powi(5), med));
        }
    }
    // looser tolerance
    let mut b = a.clone();
    b.reltol *= 10.0;
    b.abstol *= 10.0;
    let p = run(Which::Dp, &sys, &b);
    let (x, y) = (o.st.function_evals as f64, p.st.function_evals as f64);
    obs.maxi("looser/tighter", (y - 150.0) / x);
    if y > 1.3 * x + 150.0 {
        return Err(format!("{} evaluations, but {} at ten times the tolerance", x, y));
    }
    Ok(())
}

pub fn c19(env: &Env) -> i32 {
    let strat = || {
        (
            prob(&ProbCfg {
                kinds: vec![(4, Kind::Lin), (3, Kind::Diag), (3, Kind::Net), (1, Kind::Pendulum), (1, Kind::Lotka)],
                rate: (-0.5, 0.5),
                span: (3.0, 8.0),
                ..Default::default()
            }),
            grid((-10.0, -4.0)),
            grid((-2.0, 0.5)),
            grid((-5.0, -2.0)),
        )
            .prop_map(|(prob, rtol, aratio, dtstart)| Case {
                alg: Which::Dp,
                prob,
                opt: Opt { rtol, aratio, dtstart: Some(dtstart), ..Opt::default() },
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C19",
            rule: "a run with more than thirty recorded points",
            quick: 60000,
            thorough: 1000000,
            strategy: &strat,
            case: &c19_case,
            assumptions: &["calibrated: median fifth root of the error estimates at least 0.5, at most 1.5 attempts per step"],
        },
    )
}

fn c20_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let mut a = Abs::new(&c.opt, &sys);
    if c.alg == Which::Ra {
        // a difference quotient does not keep the combination exactly
        a.jac = true;
        clamp_start(&mut a, &sys, c.prob.rate);
    }
    let o = run(c.alg, &sys, &a);
    obs.nontrivial = o.ts.len() > 5;
    obs.label(&format!("{:?} {:?}", c.alg, o.code));
    let total: f64 = sys.u0.iter().sum();
    let mut f = vec![0.0; sys.n];
    let eps = f64::EPSILON;
    let mut allow = 100.0 * eps * sys.n as f64 * sys.amp;
    for k in 1..o.ts.len() {
        let u = &o.us[k];
        let h = (o.ts[k] - o.ts[k - 1]).abs();
        sys.f(o.ts[k], u, &mut f);
        let um = u.iter().chain(&o.us[k - 1]).fold(0.0f64, |m, v| m.max(v.abs()));
        let rate = 10f64.powf(c.prob.rate.max(0.0)) * sys.kappa * 4.0;
        let x = um / sys.amp;
        allow += 5.0 * eps * sys.n as f64 * um * (1.0 + h * rate * (1.0 + x));
        let s: f64 = u.iter().sum();
        let d = (s - total).abs() / allow;
        obs.maxi(&format!("drift {:?}", c.alg), d);
        if !(d <= 1.0) {
            return Err(format!(
                "the total drifts from {:e} to {:e} at point {} ({} rounding allowances)",
                total, s, k, d
            ));
        }
    }
    Ok(())
}

pub fn c20(env: &Env) -> i32 {
    let strat = || {
        either(
            ProbCfg { kinds: vec![(1, Kind::Conserve)], nmax: 8, rate: (-0.5, 1.0), ..Default::default() },
            OptCfg { rtol: (-8.0, -1.0), few: 0.03, ..Default::default() },
        )
    };
    engine::runner::run(
        env,
        &Def {
            id: "C20",
            rule: "a run with more than five recorded points",
            quick: 100000,
            thorough: 2000000,
            strategy: &strat,
            case: &c20_case,
            assumptions: &["drift allowance accumulates 5 n eps |u| (1 + h rate) per step"],
        },
    )
}

fn c22_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let steps = |rate: f64| -> Result<(usize, usize), String> {
        let mut p = c.prob.clone();
        p.rate = rate;
        let sys = Sys::new(&p);
        let mut a = Abs::new(&c.opt, &sys);
        clamp_start(&mut a, &sys, rate);
        let o = run(Which::Ra, &sys, &a);
        if o.code != Code::Success {
            return Err(format!("return code {:?} at rate 1e{}", o.code, rate));
        }
        Ok((o.st.steps, o.st.linear_solves))
    };
    let (x, xi) = steps(1.5)?;
    let (y, yi) = steps(c.prob.rate)?;
    obs.nontrivial = x > 5;
    obs.label(&format!("rate 1e{:.0}", c.prob.rate));
    obs.label(if c.opt.jac { "Jacobian supplied" } else { "Jacobian approximated" });
    let extra = 20.0 * (c.prob.rate - 1.5);
    obs.maxi("growth", (y as f64 - extra - 20.0) / x as f64);
    obs.maxi("growth of iterations", (yi as f64 - 4.0 * extra - 80.0) / xi as f64);
    if y as f64 > 1.5 * x as f64 + extra + 20.0 {
        return Err(format!("{} attempts at rate 1e1.5, {} at rate 1e{}", x, y, c.prob.rate));
    }
    if yi as f64 > 2.0 * xi as f64 + 4.0 * extra + 80.0 {
        return Err(format!("{} iterations at rate 1e1.5, {} at rate 1e{}", xi, yi, c.prob.rate));
    }
    Ok(())
}

pub fn c22(env: &Env) -> i32 {
    let strat = || {
        (
            prob(&ProbCfg {
                kinds: vec![(4, Kind::Lin), (2, Kind::Net)],
                rate: (2.0, 7.0),
                amp: (-2.0, 3.0),
                ..Default::default()
            }),
            opt_ra(&OptCfg { rtol: (-6.0, -2.5), p: 0.0, ..Default::default() }),
        )
            .prop_map(|(p, mut opt)| {
                // components passing zero ask for the same small steps at any rate
                opt.aratio = opt.aratio.max(-3.0);
                let mut prob = fit(p, &opt);
                if !opt.jac {
                    // difference quotients of fast components disturb the slow ones
                    prob.rate = prob.rate.min(5.5);
                    prob.amp = prob.amp.min(1.0);
                }
                Case { alg: Which::Ra, prob, opt }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C22",
            rule: "more than five attempts at the lower stiffness",
            quick: 60000,
            thorough: 1000000,
            strategy: &strat,
            case: &c22_case,
            assumptions: &["calibrated: 1.5 times the attempts plus 20 and 20 per decade for resolving the transient"],
        },
    )
}
