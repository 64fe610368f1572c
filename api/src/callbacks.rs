//! C13, C26: what callbacks see and what their changes do.
use crate::drive::*;
use crate::mesh::Case;
use crate::steps::{dp_check, ra_check};
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::radau::Radau5;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Kind, Sys};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    pub base: Case,
    pub plan: Vec<(usize, Act)>,
}

fn exec<A: AlgX>(c: &Prog, sys: &Sys, a: &Abs, obs: &mut Obs) -> Result<(), String> {
    let mut ctx = Ctx::new(sys);
    ctx.plan = c.plan.clone();
    let mut it = builder::<A>(ctx, &sys.u0, (sys.t0, sys.t1), a).callback(&acting::<A>).build();
    let mut calls = 0;
    while it.step().is_some() {
        calls += 1;
    }
    calls += 1;
    let stop = c.plan.iter().filter(|p| matches!(p.1, Act::Stop)).map(|p| p.0).min();
    let o = snapshot(&it, 0, 0);
    let log = it.params.log.borrow().clone();
    obs.label(&format!("{:?} {:?}", A::WHICH, o.code));
    if log.len() != calls {
        return Err(format!("{} steps but {} callback calls", calls, log.len()));
    }
    if let Some(k) = stop {
        if log.len() > k + 1 {
            return Err(format!("integration went on after the callback ended it at call {}", k));
        }
    }
    let mut ctx = Ctx::new(sys);
    let ulp = 8.0 * f64::EPSILON * sys.t0.abs().max(sys.t1.abs());
    let gains = c.plan.iter().any(|p| matches!(p.1, Act::Gain(_)));
    let (mut tp, mut up) = (sys.t0, sys.u0.clone());
    let mut far = 0;
    let mut changed = 0;
    for (k, s) in log.iter().enumerate() {
        if s.points != k + 2 {
            // a step that failed records nothing; only the last call can see that
            if k + 1 < log.len() {
                return Err(format!("{} points recorded at callback {}", s.points, k));
            }
            break;
        }
        if s.accepts != k + 1 {
            return Err(format!("callback {} sees {} accepted steps", k, s.accepts));
        }
        if s.t != o.ts[k + 1] || s.u != o.us[k + 1] {
            return Err(format!("callback {} does not see the recorded point", k));
        }
        if s.tprev != tp {
            return Err(format!("callback {} sees previous time {:e} instead of {:e}", k, s.tprev, tp));
        }
        if s.uprev != up {
            return Err(format!("callback {} does not see the previous state", k));
        }
        if !((s.dtprev - (s.t - tp)).abs() <= ulp) {
            return Err(format!("callback {} sees a step of {:e} instead of {:e}", k, s.dtprev, s.t - tp));
        }
        // the step itself, from the state and parameters the previous call left
        match A::WHICH {
            Which::Dp => {
                let d = dp_check(&ctx, a, tp, &up, s.t, &s.u);
                obs.maxi("explicit deviation", d.dev);
                obs.maxi("explicit estimate", d.err - d.slack);
                if !(d.dev <= 1.0) {
                    return Err(format!(
                        "step {} is not a step from the changed state ({} rounding allowances)",
                        k + 1,
                        d.dev
                    ));
                }
                if !(d.err <= 1.0 + 1e-6 + d.slack) {
                    return Err(format!("step {} accepted with error estimate {}", k + 1, d.err));
                }
            }
            Which::Ra => {
                if let Some(d) = ra_check(&ctx, a, tp, &up, s.t, &s.u) {
                    let fnewt = a.radau_fnewt();
                    let lin = sys.constant_jacobian() && a.jac && !gains;
                    if lin {
                        obs.maxi("implicit deviation", d.dev - d.slack);
                        if !(d.dev - d.slack <= 1e-5) {
                            return Err(format!(
                                "step {} is not a step from the changed state ({} tolerances)",
                                k + 1,
                                d.dev
                            ));
                        }
                    } else if !((d.dev - d.slack) <= 100.0 * fnewt) {
                        far += 1;
                    }
                    if let (Some(e), true) = (d.err, lin) {
                        let e = e.0.min(e.1);
                        obs.maxi("implicit estimate", e - d.slack);
                        if !(e <= 1.0 + d.slack + 10.0 * fnewt) {
                            return Err(format!("step {} accepted with error estimate {}", k + 1, e));
                        }
                    }
                }
            }
        }
        if s.after != s.u || s.gain != ctx.gain || s.shift != ctx.shift {
            changed += 1;
        }
        tp = s.t;
        up = s.after.clone();
        ctx.gain = s.gain;
        ctx.shift = s.shift;
    }
    obs.maxi(if gains { "share of far steps with changed slopes" } else { "share of far steps" }, (far as f64 - 9.0) / log.len() as f64);
    if far as f64 > 9.0 + if gains { 0.3 } else { 0.15 } * log.len() as f64 {
        return Err(format!("{} of {} steps are not steps from the changed state", far, log.len()));
    }
    obs.nontrivial = changed > 0 && log.len() > 4;
    obs.long(log.len());
    obs.count("changes", changed);
    obs.count("steps", log.len() as u64);
    Ok(())
}

fn c13_case(c: &Prog, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.base.prob);
    let mut a = Abs::new(&c.base.opt, &sys);
    if !sys.constant_jacobian() {
        let h = a.dtstart.unwrap_or(1e-6);
        a.dtstart = Some(h.min(0.1 / (10f64.powf(c.base.prob.rate.max(0.5)) * sys.kappa)));
    }
    match c.base.alg {
        Which::Dp => exec::<DormandPrince5>(c, &sys, &a, obs),
        Which::Ra => exec::<Radau5>(c, &sys, &a, obs),
    }
}

pub fn c13(env: &Env) -> i32 {
    // some runs end early, the earliest with their first attempt
    let budget = || prop_oneof![16 => Just(2000), 1 => 1usize..60, 1 => 1usize..4];
    let strat = || {
        let dp = (
            prob(&ProbCfg {
                kinds: vec![(3, Kind::Lin), (2, Kind::Diag), (1, Kind::Quad), (3, Kind::Net), (1, Kind::Pendulum)],
                ..Default::default()
            }),
            opt_dp(&OptCfg { rtol: (-8.0, -2.0), ..Default::default() }),
            budget(),
        )
            .prop_map(|(prob, mut opt, budget)| {
                opt.max_steps = Some(budget);
                Case { alg: Which::Dp, prob, opt }
            });
        let ra = (
            prob(&ProbCfg {
                kinds: vec![(5, Kind::Lin), (1, Kind::Quad), (2, Kind::Net), (1, Kind::Pendulum)],
                rate: (-0.5, 4.0),
                ..Default::default()
            }),
            opt_ra(&OptCfg { rtol: (-7.0, -2.0), ..Default::default() }),
            budget(),
        )
            .prop_map(|(prob, mut opt, budget)| {
                opt.max_steps = Some(budget);
                if !matches!(prob.kind, Kind::Lin | Kind::Quad) {
                    opt.ext_col = None;
                }
                Case { alg: Which::Ra, prob: fit(prob, &opt), opt }
            });
        let act = prop_oneof![
            4 => (prop_oneof![Just(1.0), Just(-1.0), Just(0.0), grid((-2.0, 2.0))], prop_oneof![Just(0.0), grid((-2.0, 2.0))])
                .prop_map(|(a, b)| Act::State(a, b)),
            3 => grid((-3.0, 3.0)).prop_map(Act::Shift),
            2 => grid((0.2, 3.0)).prop_map(Act::Gain),
        ];
        (
            prop_oneof![dp.boxed(), ra.boxed()],
            prop::collection::vec((prop_oneof![0usize..10, 0usize..60], act), 0..8),
            prop::option::weighted(0.1, 0usize..60),
        )
            .prop_map(|(base, mut plan, stop)| {
                if base.alg == Which::Ra && plan.iter().any(|p| p.0 % 2 == 0) {
                    // mostly keep the Jacobian the step was computed with exact
                    for p in plan.iter_mut() {
                        if let Act::Gain(g) = p.1 {
                            p.1 = Act::Shift(g);
                        }
                    }
                }
                if let Some(k) = stop {
                    plan.push((k, Act::Stop));
                }
                Prog { base, plan }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C13",
            rule: "at least one change took effect in a run of more than four steps",
            quick: 60000,
            thorough: 1000000,
            strategy: &strat,
            case: &c13_case,
            assumptions: &["step references and tolerances as in C03 and C04"],
        },
    )
}

fn settings<A: AlgX>(c: &Prog, sys: &Sys, a: &Abs, obs: &mut Obs) -> Result<(), String> {
    let mut ctx = Ctx::new(sys);
    ctx.plan = c.plan.clone();
    ctx.times = Some(Default::default());
    let mut it = builder::<A>(ctx, &sys.u0, (sys.t0, sys.t1), a).callback(&acting::<A>).build();
    let start = hold(&it);
    it.integrate();
    let o = snapshot(&it, 0, 0);
    let mut held = vec![start];
    held.extend(it.params.held.borrow().iter().cloned());
    let times = it.params.times.as_ref().unwrap().borrow().clone();
    let dir = (sys.t1 - sys.t0).signum();
    let eps = f64::EPSILON;
    let ctx = Ctx::new(sys);
    let fnewt = a.radau_fnewt();
    let (stretch, last_stretch) = match A::WHICH {
        Which::Dp => (1.01, 1.01),
        Which::Ra => (1.0001, 1.0001 / a.quot1.unwrap_or(1.0)),
    };
    let mut changed = 0;
    let mut far = 0;
    for k in 1..o.ts.len() {
        let (t0, t1) = (o.ts[k - 1], o.ts[k]);
        let (u0, u1) = (&o.us[k - 1], &o.us[k]);
        // what the callback left before this step
        let g = held[k - 1];
        let ulp = 8.0 * eps * t0.abs().max(t1.abs()).max(g.end.abs());
        if k > 1 {
            changed += (g.reltol != held[k - 2].reltol || g.end != held[k - 2].end) as u64;
            changed += c.plan.iter().filter(|p| p.0 + 2 == k && matches!(p.1, Act::Size(_))).count() as u64;
        }
        // the first attempt: one evaluation at the start, then the stages
        let i = g.calls;
        let reach = match A::WHICH {
            Which::Dp => times[i + 1..i + 7].iter().fold(0.0f64, |m, s| m.max((s - t0).abs())),
            Which::Ra => (times[i + 3] - t0).abs(),
        };
        let left = (g.end - t0).abs();
        let want = if stretch * g.dt.abs() > left { left } else { g.dt.abs() };
        let edge = (stretch * g.dt.abs() / left - 1.0).abs() < 1e-9;
        if !edge && !((reach - want).abs() <= ulp) {
            return Err(format!("step {} tries {:e} instead of {:e}", k, reach, want));
        }
        if !((t1 - g.end) * dir <= ulp) {
            return Err(format!("step {} goes to {:e}, beyond the end {:e}", k, t1, g.end));
        }
        if k > 1 {
            // the limit in force when the size of this step was found
            let grown: f64 = c
                .plan
                .iter()
                .filter(|p| p.0 + 2 == k)
                .map(|p| if let Act::Size(f) = p.1 { f } else { 1.0 })
                .product();
            let cap = held[k - 2].dtmax * grown * last_stretch;
            if !((t1 - t0).abs() <= cap * (1.0 + 1e-9) + ulp) {
                return Err(format!("step {} of {:e} exceeds the maximum step", k, t1 - t0));
            }
        }
        let mut b = a.clone();
        b.reltol = g.reltol;
        b.abstol = g.abstol;
        b.work = Some((g.reltol, g.abstol));
        match A::WHICH {
            Which::Dp => {
                let d = dp_check(&ctx, &b, t0, u0, t1, u1);
                obs.maxi("explicit estimate", d.err - d.slack);
                if !(d.dev <= 1.0) {
                    return Err(format!("step {} is not a step of the method ({} rounding allowances)", k, d.dev));
                }
                if !(d.err <= 1.0 + 1e-6 + d.slack) {
                    return Err(format!("step {} accepted with error estimate {}", k, d.err));
                }
            }
            Which::Ra => {
                if let Some(d) = ra_check(&ctx, &b, t0, u0, t1, u1) {
                    let lin = sys.constant_jacobian() && a.jac;
                    let e = d.dev - d.slack;
                    if lin && !(e <= 1e-5) {
                        return Err(format!("step {} is not a step of the method ({} tolerances)", k, d.dev));
                    }
                    far += !(e <= 100.0 * fnewt) as usize;
                    if let (Some(e), true) = (d.err, lin) {
                        let e = e.0.min(e.1);
                        obs.maxi("implicit estimate", e - d.slack);
                        if !(e <= 1.0 + d.slack + 10.0 * fnewt) {
                            return Err(format!("step {} accepted with error estimate {}", k, e));
                        }
                    }
                }
            }
        }
    }
    if far as f64 > 5.0 + 0.3 * o.ts.len() as f64 {
        return Err(format!("{} of {} steps are not steps of the method", far, o.ts.len()));
    }
    // a change after the last step comes too late
    let (last, end) = (*o.ts.last().unwrap(), held[o.ts.len().max(2) - 2].end);
    let close = (last - end).abs() <= 8.0 * eps * last.abs().max(end.abs()).max(sys.t0.abs());
    obs.label(&format!("{:?} {:?}", A::WHICH, o.code));
    if o.code == Code::Success && !close {
        return Err(format!("Success at {:e} although the end is {:e}", last, end));
    }
    if o.code != Code::Success && o.code != Code::MaxIters {
        return Err(format!("return code {:?} at {:e}", o.code, last));
    }
    obs.nontrivial = changed > 0 && o.ts.len() > 4;
    obs.long(o.ts.len());
    obs.count("changes in force", changed);
    obs.count("steps", o.ts.len() as u64);
    Ok(())
}

fn c26_case(c: &Prog, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.base.prob);
    let mut a = Abs::new(&c.base.opt, &sys);
    if c.base.alg == Which::Ra {
        let h = a.dtstart.unwrap_or(1e-6);
        a.dtstart = Some(h.min(0.1 / (10f64.powf(c.base.prob.rate.max(0.5)) * sys.kappa)));
    }
    match c.base.alg {
        Which::Dp => settings::<DormandPrince5>(c, &sys, &a, obs),
        Which::Ra => settings::<Radau5>(c, &sys, &a, obs),
    }
}

pub fn c26(env: &Env) -> i32 {
    let strat = || {
        let dp = (
            prob(&ProbCfg {
                kinds: vec![(3, Kind::Lin), (2, Kind::Diag), (1, Kind::Quad), (3, Kind::Net), (1, Kind::Pendulum)],
                ..Default::default()
            }),
            opt_dp(&OptCfg { rtol: (-7.0, -3.0), ..Default::default() }),
        )
            .prop_map(|(prob, mut opt)| {
                opt.max_steps = Some(2000);
                Case { alg: Which::Dp, prob, opt }
            });
        let ra = (
            prob(&ProbCfg {
                kinds: vec![(5, Kind::Lin), (1, Kind::Quad), (2, Kind::Net), (1, Kind::Pendulum)],
                rate: (-0.5, 4.0),
                ..Default::default()
            }),
            opt_ra(&OptCfg { rtol: (-6.0, -3.0), ..Default::default() }),
        )
            .prop_map(|(prob, mut opt)| {
                opt.max_steps = Some(2000);
                if !matches!(prob.kind, Kind::Lin | Kind::Quad) {
                    opt.ext_col = None;
                }
                Case { alg: Which::Ra, prob: fit(prob, &opt), opt }
            });
        let act = prop_oneof![
            3 => grid((-1.5, 0.2)).prop_map(|x| Act::Size(10f64.powf(x))),
            3 => grid((-2.0, 1.0)).prop_map(|x| Act::Tol(10f64.powf(x))),
            2 => grid((-2.0, 0.0)).prop_map(|x| Act::Cap(10f64.powf(x))),
            3 => grid((-2.0, 0.3)).prop_map(|x| Act::End(10f64.powf(x))),
        ];
        (
            prop_oneof![dp.boxed(), ra.boxed()],
            prop::collection::vec((prop_oneof![0usize..10, 0usize..60], act), 0..8),
        )
            .prop_map(|(base, mut plan)| {
                // one change per step keeps the expected outcome plain
                plan.sort_by_key(|p| p.0);
                plan.dedup_by_key(|p| p.0);
                Prog { base, plan }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C26",
            rule: "at least one change took effect in a run of more than four steps",
            quick: 60000,
            thorough: 1000000,
            strategy: &strat,
            case: &c26_case,
            assumptions: &["step references and tolerances as in C03 and C04"],
        },
    )
}
