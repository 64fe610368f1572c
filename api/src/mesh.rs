//! C05, C06, C07: times, termination, step size limits.
use crate::drive::*;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::radau::Radau5;
use engine::runner::{guard, Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Kind, Prob, Sys};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const EPS: f64 = f64::EPSILON;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub alg: Which,
    pub prob: Prob,
    pub opt: Opt,
}

pub fn which() -> impl Strategy<Value = Which> {
    prop_oneof![Just(Which::Dp), Just(Which::Ra)]
}

pub fn all_kinds() -> Vec<(u32, Kind)> {
    vec![
        (4, Kind::Lin),
        (3, Kind::Diag),
        (2, Kind::Quad),
        (3, Kind::Net),
        (1, Kind::Vdp),
        (1, Kind::Lotka),
        (1, Kind::Pendulum),
        (1, Kind::Brussel),
        (1, Kind::Conserve),
    ]
}

/// problem and options suited to the algorithm
pub fn either(pc: ProbCfg, oc: OptCfg) -> BoxedStrategy<Case> {
    let stiff = ProbCfg { rate: (pc.rate.0, pc.rate.1.max(4.0)), ..pc.clone() };
    prop_oneof![
        (prob(&pc), opt_dp(&oc)).prop_map(|(p, opt)| Case { alg: Which::Dp, prob: calm(p, &opt), opt }),
        (prob(&stiff), opt_ra(&oc)).prop_map(|(p, opt)| Case { alg: Which::Ra, prob: fit(p, &opt), opt }),
    ]
    .boxed()
}

/// mass-action kinetics is unstable where a concentration turns negative
pub fn tame(mut c: Case) -> Case {
    if c.alg == Which::Ra && c.prob.kind == Kind::Conserve {
        c.prob.kind = Kind::Brussel;
    }
    c
}

/// start, direction, monotonicity, shape; end only if `done`
pub fn mesh_ok(o: &Out, u0: &[f64], t0: f64, t1: f64) -> Result<(), String> {
    let dir = (t1 - t0).signum();
    let ulp = 4.0 * EPS * t0.abs().max(t1.abs());
    if o.ts.len() != o.us.len() {
        return Err(format!("{} times but {} states", o.ts.len(), o.us.len()));
    }
    if o.ts.is_empty() || o.ts[0] != t0 {
        return Err(format!("first time {:?} instead of {:e}", o.ts.first(), t0));
    }
    if o.us[0] != u0 {
        return Err("first state is not the initial state".into());
    }
    for k in 1..o.ts.len() {
        if !((o.ts[k] - o.ts[k - 1]) * dir > 0.0) {
            return Err(format!("time {} ({:e}) does not follow {:e}", k, o.ts[k], o.ts[k - 1]));
        }
        if !((o.ts[k] - t1) * dir <= ulp) {
            return Err(format!("time {} ({:e}) is beyond the end {:e}", k, o.ts[k], t1));
        }
        if o.us[k].len() != u0.len() {
            return Err(format!("state {} has length {}", k, o.us[k].len()));
        }
    }
    let last = *o.ts.last().unwrap();
    let reached = (last - t1).abs() <= ulp;
    if o.code == Code::Success && !reached {
        return Err(format!("Success although the last time is {:e}, not {:e}", last, t1));
    }
    if o.code != Code::Success && last == t1 {
        return Err(format!("{:?} although the end {:e} was reached", o.code, t1));
    }
    Ok(())
}

fn labels(c: &Case, o: &Out, obs: &mut Obs) {
    obs.label(&format!("{:?}", c.alg));
    obs.label(if c.prob.back { "backward" } else { "forward" });
    obs.label(&format!("kind {:?}", c.prob.kind));
    if o.st.rejects > 0 {
        obs.label("with rejections");
    }
    if c.opt.dtmax.is_some() {
        obs.label("with maximum step");
    }
    if c.prob.t0 != 0.0 && (c.prob.t0 > 0.0) == c.prob.back && c.prob.t0.abs() < c.prob.span {
        obs.label("interval contains zero");
    }
}

fn c05_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let a = Abs::new(&c.opt, &sys);
    let o = run(c.alg, &sys, &a);
    obs.nontrivial = o.ts.len() > 3;
    obs.long(o.ts.len());
    labels(c, &o, obs);
    if o.code != Code::Success {
        if c.opt.max_newt.map_or(false, |k| k < 5) {
            obs.label("too few iterations");
            return Ok(());
        }
        return Err(format!("return code {:?}", o.code));
    }
    mesh_ok(&o, &sys.u0, sys.t0, sys.t1)?;
    let (lo, hi) = (sys.t0.min(sys.t1), sys.t0.max(sys.t1));
    let ulp = 4.0 * EPS * lo.abs().max(hi.abs());
    if o.tlo < lo - ulp || o.thi > hi + ulp {
        return Err(format!(
            "right-hand side evaluated on [{:e}, {:e}], outside [{:e}, {:e}]",
            o.tlo, o.thi, lo, hi
        ));
    }
    Ok(())
}

pub fn c05(env: &Env) -> i32 {
    let strat = || {
        either(
            ProbCfg { kinds: all_kinds(), span: (0.05, 8.0), ..Default::default() },
            OptCfg { rtol: (-9.0, -2.0), dtstart: (-6.0, 1.5), few: 0.03, ..Default::default() },
        )
        .prop_map(tame)
        .prop_map(|mut c| {
            if c.opt.max_newt.map_or(false, |k| k < 5) {
                c.opt.max_steps = Some(2000);
            }
            c
        })
        .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C05",
            rule: "a run with more than three recorded points",
            quick: 150000,
            thorough: 3000000,
            strategy: &strat,
            case: &c05_case,
            assumptions: &["times compared up to 4 eps max(|t0|,|t1|)"],
        },
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hard {
    pub alg: Which,
    pub prob: Prob,
    pub opt: Opt,
    pub hostile: Hostile,
    pub max_stiff: Option<usize>,
    /// relative tolerance only
    #[serde(default)]
    pub pure: bool,
}

/// Outcome, the step size left and, of a failing run, the size of the last attempt.
fn c06_run<A: AlgX>(c: &Hard, sys: &Sys, a: &Abs, budget: u64, failing: bool) -> Result<(Out, f64, f64), String> {
    let mut ctx = Ctx::new(sys);
    ctx.hostile = c.hostile.clone();
    ctx.budget = budget;
    if failing {
        ctx.times = Some(Default::default());
    }
    let mut b = builder::<A>(ctx, &sys.u0, (sys.t0, sys.t1), a);
    if let Some(v) = c.max_stiff {
        b = b.max_stiff(v);
    }
    guard(move || {
        let mut it = b.build();
        if !failing {
            it.integrate();
            return (snapshot(&it, 0, 0), it.dt, f64::INFINITY);
        }
        let mut times = vec![];
        loop {
            let points = it.sol.ts.len();
            let log = it.params.times.as_ref().unwrap();
            log.borrow_mut().clear();
            let more = it.step().is_some();
            if it.sol.ts.len() == points {
                times = it.params.times.as_ref().unwrap().borrow().clone();
            }
            if !more {
                break;
            }
        }
        let tried = times.iter().rev().find(|&&s| s != it.t).map_or(f64::INFINITY, |s| (s - it.t).abs());
        (snapshot(&it, 0, 0), it.dt, tried)
    })
}

fn c06_case(c: &Hard, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let mut a = Abs::new(&c.opt, &sys);
    if c.pure {
        a.abstol = 0.0;
        obs.label("relative tolerance only");
    }
    let ms = a.max_steps.unwrap_or(100000) as u64;
    let n = sys.n as u64;
    let budget = match c.alg {
        // attempts per step are limited by how often a step can shrink
        Which::Dp => {
            let slow = -1.0 / c.opt.shrink.unwrap_or(0.2).ln();
            7 * (ms + 5) * (60.0 + 60.0 * slow) as u64 + 70000 + (7.0 * 1500.0 * slow) as u64
        }
        Which::Ra => (ms + 10) * (3 * a.max_newt.unwrap_or(7) as u64 + 2 * n + 10),
    };
    let go = |failing| match c.alg {
        Which::Dp => c06_run::<DormandPrince5>(c, &sys, &a, budget, failing),
        Which::Ra => c06_run::<Radau5>(c, &sys, &a, budget, failing),
    };
    let (o, dt, _) = go(false)?;
    obs.nontrivial = true;
    obs.label(&format!("{:?} {:?}", c.alg, o.code));
    obs.label(&format!("hostile kind {}", c.hostile.kind));
    obs.maxi(&format!("calls/budget {:?}", c.alg), o.nf as f64 / budget as f64);
    mesh_ok(&o, &sys.u0, sys.t0, sys.t1)?;
    let t = o.ts.last().unwrap().abs();
    match o.code {
        Code::Success => {}
        Code::DtLessThanMin => {
            if !(dt.abs() <= 20.0 * EPS * t + 1e-300) {
                return Err(format!("step reported too small, but it is {:e} at t={:e}", dt, t));
            }
            let (p, _, tried) = go(true)?;
            if p.code != o.code {
                return Err(format!("return code {:?}, but {:?} stepping by hand", o.code, p.code));
            }
            if tried < 9.0 * EPS * t {
                return Err(format!("step of {:e} tried at t={:e}", tried, t));
            }
        }
        Code::MaxIters => {
            if (o.st.steps as u64) < ms {
                return Err(format!("iteration limit {} reported after {} steps", ms, o.st.steps));
            }
        }
        Code::SingularMatrix if c.alg == Which::Ra => {}
        other => return Err(format!("unexpected return code {:?}", other)),
    }
    let mut ctx = Ctx::new(&sys);
    ctx.hostile = c.hostile.clone();
    let mut f = vec![0.0; sys.n];
    for k in 0..o.us.len() {
        if o.us[k].iter().any(|v| !v.is_finite()) {
            return Err(format!("recorded state {} is not finite", k));
        }
        if k + 1 < o.us.len() {
            ctx.eval(o.ts[k], &o.us[k], &mut f);
            if f.iter().any(|v| !v.is_finite()) {
                return Err(format!(
                    "a step was accepted from point {} where the right-hand side is not finite",
                    k
                ));
            }
        }
    }
    Ok(())
}

pub fn c06(env: &Env) -> i32 {
    let strat = || {
        let base = either(
            ProbCfg { kinds: all_kinds(), span: (0.1, 8.0), nmax: 5, ..Default::default() },
            OptCfg { rtol: (-7.0, -2.0), ..Default::default() },
        );
        let h = (0u8..=14, 0i32..=110, -100i32..=100).prop_map(|(kind, s, a)| Hostile {
            kind,
            s0: s as f64 / 100.0,
            a: a as f64 / 100.0,
        });
        (
            base,
            h,
            prop_oneof![1usize..=30, 30usize..=1500],
            prop::option::weighted(0.15, 0usize..=4),
            prop::option::weighted(0.2, prop_oneof![Just(0usize), 1usize..=20]),
            prop::option::weighted(0.1, 60i32..=98),
            prop::bool::weighted(0.04),
        )
            .prop_map(|(b, hostile, ms, newt, max_stiff, slow, pure)| {
                let mut opt = b.opt;
                // steps that shrink slowly
                if let (Which::Dp, Some(v)) = (b.alg, slow) {
                    opt.shrink = Some(v as f64 / 100.0);
                }
                let pure = pure && !opt.norel;
                opt.max_steps = Some(ms);
                if newt.is_some() {
                    opt.max_newt = newt;
                }
                Hard { alg: b.alg, prob: b.prob, opt, hostile, max_stiff, pure }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C06",
            rule: "every case: a right-hand side of one of fifteen kinds (fourteen of them misbehaving) driven to its end",
            quick: 60000,
            thorough: 1000000,
            strategy: &strat,
            case: &c06_case,
            assumptions: &["termination decided by a right-hand side call budget derived from the step limit"],
        },
    )
}

fn c07_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let a = Abs::new(&c.opt, &sys);
    let len = (sys.t1 - sys.t0).abs();
    let ulp = 4.0 * EPS * sys.t0.abs().max(sys.t1.abs());
    // first attempt
    let reach = match c.alg {
        Which::Dp => first_reach::<DormandPrince5>(&sys, &a),
        Which::Ra => first_reach::<Radau5>(&sys, &a),
    };
    let h0 = a.dtstart.unwrap_or(1e-6).min(a.dtmax.unwrap_or(f64::INFINITY));
    let (stretch, last_stretch) = match c.alg {
        Which::Dp => (1.01, 1.01),
        Which::Ra => (1.0001, 1.0001 / a.quot1.unwrap_or(1.0)),
    };
    let near_end = (h0 * stretch / len - 1.0).abs() < 1e-9;
    let want = if h0 * stretch > len { len } else { h0 };
    if !near_end && !((reach - want).abs() <= 1e-9 * want + ulp) {
        return Err(format!("first attempt reaches {:e} from the start instead of {:e}", reach, want));
    }
    obs.label(if h0 > 0.9 * len { "initial step of the whole interval" } else { "initial step inside" });

    let o = run_steps(c.alg, &sys, &a);
    obs.nontrivial = o.ts.len() > 4;
    obs.long(o.ts.len());
    labels(c, &o, obs);
    if o.code != Code::Success {
        return Err(format!("return code {:?}", o.code));
    }
    let m = o.ts.len();
    let dtmax = a.dtmax.unwrap_or(f64::INFINITY);
    let (grow, shrink) = (a.grow_limit(c.alg), a.shrink_limit(c.alg));
    let mut hp = f64::NAN;
    for k in 1..m {
        let h = (o.ts[k] - o.ts[k - 1]).abs();
        let fin = if k + 1 == m { last_stretch } else { 1.0 };
        // what is left of a rejected attempt to stretch to the end
        let cap = if o.attempts(c.alg, k) > 1 { last_stretch } else { fin };
        if !(h <= dtmax * cap * (1.0 + 1e-9) + ulp) {
            return Err(format!("step {} of {:e} exceeds the maximum step {:e}", k, h, dtmax));
        }
        if k > 1 {
            if !(h <= hp * grow * cap * (1.0 + 1e-9) + ulp * grow) {
                return Err(format!("step {} grows by {} (limit {})", k, h / hp, grow));
            }
            obs.maxi("growth/limit", h / hp / grow / cap);
            let clean = o.attempts(c.alg, k) == 1;
            if clean && k + 1 < m {
                obs.maxi("shrink limit/shrink", shrink * hp / h);
                if !(h >= hp * shrink * (1.0 - 1e-9) - ulp) {
                    return Err(format!("step {} shrinks by {} (limit {})", k, h / hp, shrink));
                }
            }
            if clean {
                obs.count("unrejected steps", 1);
            }
        }
        hp = h;
    }

    // step limits: one that is not reached changes nothing, one that is ends the run
    let used = match c.alg {
        Which::Dp => o.st.accepts,
        Which::Ra => o.st.steps,
    };
    let mut b = a.clone();
    b.max_steps = Some(used + 2);
    let p = run(c.alg, &sys, &b);
    if let Some(d) = differ(&o, &p, 0.0) {
        return Err(format!("a step limit of {} changes a run of {} steps: {}", used + 2, used, d));
    }
    let cut = used / 2;
    if cut >= 2 {
        b.max_steps = Some(cut);
        let p = run_steps(c.alg, &sys, &b);
        if p.code != Code::MaxIters {
            return Err(format!("step limit {} of {} used steps gives {:?}", cut, used, p.code));
        }
        let taken = match c.alg {
            Which::Dp => p.st.accepts.max(p.ts.len() - 1),
            Which::Ra => p.st.steps.max(p.ts.len() - 1),
        };
        if taken > cut {
            return Err(format!("{} steps taken with a limit of {}", taken, cut));
        }
        if p.ts.len() > o.ts.len() || p.ts[..] != o.ts[..p.ts.len()] {
            return Err("a step limit changes the steps before it".into());
        }
        obs.label("limit reached");
    }
    Ok(())
}

/// how far from the start the right-hand side is evaluated during the first step
fn first_reach<A: AlgX>(sys: &Sys, a: &Abs) -> f64 {
    let mut it = builder::<A>(Ctx::new(sys), &sys.u0, (sys.t0, sys.t1), a).build();
    it.step();
    (it.params.thi.get() - sys.t0).abs().max((it.params.tlo.get() - sys.t0).abs())
}

pub fn c07(env: &Env) -> i32 {
    let strat = || {
        either(
            ProbCfg { kinds: all_kinds(), ..Default::default() },
            OptCfg { rtol: (-8.0, -2.0), p: 0.5, dtstart: (-6.0, 1.0), ..Default::default() },
        )
        .prop_map(tame)
        .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C07",
            rule: "a run with more than four recorded points",
            quick: 80000,
            thorough: 1500000,
            strategy: &strat,
            case: &c07_case,
            assumptions: &["the last step may be stretched to the end of the interval: by 1% (explicit), by 0.01% and the step-keeping ratio (implicit)"],
        },
    )
}
