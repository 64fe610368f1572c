//! C23, C24, C25: step size control and Newton iteration against their laws.
use crate::drive::*;
use crate::mesh::Case;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::radau::Radau5;
use engine::la::wrms;
use engine::refs;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Kind, Sys};
use proptest::prelude::*;

const EPS: f64 = f64::EPSILON;

/// Interval of positive numbers.
#[derive(Clone, Copy, Debug)]
pub struct Iv(pub f64, pub f64);

impl Iv {
    pub fn at(x: f64) -> Iv {
        Iv(x, x)
    }
    pub fn around(x: f64, d: f64) -> Iv {
        Iv((x - d).max(0.0), x + d)
    }
    pub fn map(self, f: impl Fn(f64) -> f64) -> Iv {
        let (a, b) = (f(self.0), f(self.1));
        Iv(a.min(b), a.max(b))
    }
    pub fn times(self, o: Iv) -> Iv {
        Iv(self.0 * o.0, self.1 * o.1)
    }
    pub fn over(self, o: Iv) -> Iv {
        Iv(self.0 / o.1, self.1 / o.0)
    }
    pub fn clip(self, lo: f64, hi: f64) -> Iv {
        self.map(|x| lo.max(hi.min(x)))
    }
    pub fn cap(self, hi: f64) -> Iv {
        self.map(|x| x.min(hi))
    }
    pub fn max(self, o: Iv) -> Iv {
        Iv(self.0.max(o.0), self.1.max(o.1))
    }
    pub fn has(self, x: f64, rel: f64, abs: f64) -> bool {
        x >= self.0 * (1.0 - rel) - abs && x <= self.1 * (1.0 + rel) + abs
    }
}

/// error estimate of an explicit attempt with its uncertainty
fn dp_err(ctx: &Ctx, a: &Abs, t: f64, u: &[f64], h: f64, hunc: f64) -> Iv {
    let n = u.len();
    let f = |t: f64, u: &[f64], o: &mut [f64]| ctx.eval(t, u, o);
    let r = refs::dp_step(&f, t, u, h);
    let un = u.iter().chain(&r.u).fold(0.0f64, |m, v| m.max(v.abs()));
    let kn = r.k.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
    let w: Vec<f64> = (0..n).map(|i| a.abstol + a.reltol * u[i].abs().max(r.u[i].abs())).collect();
    let mut j = vec![0.0; n * n];
    ctx.eval_jac(t, u, &mut j);
    let l = (0..n)
        .map(|i| j[i * n..(i + 1) * n].iter().map(|v| v.abs()).sum::<f64>())
        .fold(0.0, f64::max)
        * h.abs();
    let terr = EPS * (t.abs() + h.abs());
    let d = (1.0 + l).powi(6).min(1e6) * (50.0 * EPS * (un + h.abs() * kn) + 10.0 * terr * kn);
    let slack = wrms(&vec![d; n], &w);
    let e = wrms(&r.err, &w);
    Iv::around(e, slack + e * (1e-9 + 10.0 * hunc / h.abs()))
}

fn c23_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let a = Abs::new(&c.opt, &sys);
    let safe = a.safe.unwrap_or(0.9);
    let beta = a.beta.unwrap_or(0.04);
    let expo = 0.2 - 0.75 * beta;
    let (grow, shrink) = (a.grow_limit(Which::Dp), a.shrink_limit(Which::Dp));
    let dtmax = a.dtmax.unwrap_or(f64::INFINITY);
    let dir = (sys.t1 - sys.t0).signum();
    let ulp = 4.0 * EPS * sys.t0.abs().max(sys.t1.abs());
    let mut ctx = Ctx::new(&sys);
    ctx.times = Some(Default::default());
    let mut it = builder::<DormandPrince5>(ctx, &sys.u0, (sys.t0, sys.t1), &a).build();
    let ctx = Ctx::new(&sys);
    let mut old = Iv::at(1e-4);
    let mut tested = 0;
    for k in 1.. {
        let (t, u, dt) = (it.t, it.u.to_vec(), it.dt);
        let points = it.sol.ts.len();
        it.params.times.as_ref().unwrap().borrow_mut().clear();
        let more = it.step().is_some();
        if it.sol.ts.len() == points {
            break;
        }
        let times = it.params.times.as_ref().unwrap().borrow().clone();
        if times.len() % 6 != 0 {
            return Err(format!("step {} takes {} evaluations", k, times.len()));
        }
        // sizes of the attempts
        let mut hs: Vec<f64> = times
            .chunks(6)
            .map(|c| c.iter().fold(0.0f64, |m, s| m.max((s - t).abs())))
            .collect();
        let end = (sys.t1 - t).abs();
        let first = if 1.01 * dt.abs() > end { end } else { dt.abs() };
        let edge = (1.01 * dt.abs() / end - 1.0).abs() < 1e-9;
        if !edge && !((hs[0] - first).abs() <= ulp) {
            return Err(format!("step {}: first attempt is {:e} instead of {:e}", k, hs[0], first));
        }
        if (hs[0] - first).abs() <= ulp {
            hs[0] = first;
        }
        let last = hs.len() - 1;
        for (j, &h) in hs.iter().enumerate() {
            let hunc = if j == 0 { 0.0 } else { ulp };
            let e = dp_err(&ctx, &a, t, &u, dir * h, hunc);
            if !(e.0.is_finite() && e.1.is_finite()) {
                obs.count("estimate not finite", 1);
                old = Iv(1e-4, f64::MAX);
                continue;
            }
            if j < last {
                obs.count("rejected attempts", 1);
                if e.1 < 1.0 {
                    return Err(format!("step {}: attempt {:e} with error estimate {} rejected", k, h, e.1));
                }
                let fac = e.map(|x| (x.powf(expo) / safe).min(1.0 / shrink));
                let next = Iv::at(h).over(fac);
                if e.0 > 0.5 && !next.has(hs[j + 1], 1e-7, 4.0 * ulp) {
                    return Err(format!(
                        "step {}: attempt {:e} with error estimate {} is followed by {:e}, not {:e}",
                        k, h, e.1, hs[j + 1], next.0
                    ));
                }
            } else {
                let fac = e
                    .map(|x| x.powf(expo))
                    .over(old.map(|x| x.powf(beta)))
                    .map(|x| x / safe)
                    .clip(1.0 / grow, 1.0 / shrink);
                let mut next = Iv::at(h).over(fac).cap(dtmax);
                if last > 0 {
                    next = next.cap(h + hunc);
                }
                let got = it.dt.abs();
                if next.1 <= 1.2 * next.0 {
                    tested += 1;
                    if next.0 < 0.999 * h || next.1 > 1.001 * h {
                        obs.count("size changed", 1);
                    }
                } else {
                    obs.count("estimate at rounding level", 1);
                }
                if !next.has(got, 1e-7, 2.0 * hunc) {
                    return Err(format!(
                        "step {} of {:e} with error estimate {} is followed by {:e}, not {:e}",
                        k, h, e.1, got, next.0
                    ));
                }
                old = e.max(Iv::at(1e-4));
            }
        }
        if !more {
            break;
        }
    }
    obs.nontrivial = tested > 4;
    obs.long(tested as usize);
    obs.count("steps", tested);
    obs.label(if c.prob.back { "backward" } else { "forward" });
    if it.stats.rejects > 0 {
        obs.label("with rejections");
    }
    Ok(())
}

pub fn c23(env: &Env) -> i32 {
    let strat = || {
        (
            prob(&ProbCfg {
                kinds: vec![
                    (3, Kind::Lin),
                    (3, Kind::Diag),
                    (1, Kind::Quad),
                    (4, Kind::Net),
                    (1, Kind::Vdp),
                    (1, Kind::Lotka),
                    (1, Kind::Pendulum),
                    (1, Kind::Brussel),
                    (1, Kind::Lorenz),
                ],
                rate: (-0.5, 1.5),
                ..Default::default()
            }),
            wild(opt_dp(&OptCfg { rtol: (-9.0, -1.5), p: 0.4, dtstart: (-6.0, 0.5), ..Default::default() })),
        )
            .prop_map(|(prob, mut opt)| {
                opt.max_steps = Some(2000);
                Case { alg: Which::Dp, prob, opt }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C23",
            rule: "a run with more than four steps whose successor the law fixes to within 20 %",
            quick: 60000,
            thorough: 1000000,
            strategy: &strat,
            case: &c23_case,
            assumptions: &["error estimates known up to 50 eps (|u| + h|f|) times the stage amplification of the step"],
        },
    )
}

/// One attempt of an implicit step as seen through the right-hand side.
struct Attempt {
    h: f64,
    newt: usize,
    second: bool,
}

/// Sort the evaluation times of one implicit step into attempts.
fn attempts(times: &[f64], t: f64, dir: f64, ulp: f64) -> Result<(Vec<Attempt>, usize), String> {
    let (c, _) = refs::radau_tableau();
    let mut out: Vec<Attempt> = vec![];
    let mut fresh = true;
    let mut i = 0;
    while i < times.len() {
        let left = times.len() - i;
        let h = if left >= 3 { (times[i + 2] - t) * dir } else { 0.0 };
        let near = |s: usize| ((times[i + s] - t) * dir - c[s] * h).abs() <= 2.0 * ulp;
        if left >= 3 && h > 0.0 && near(0) && near(1) {
            match out.last_mut() {
                Some(a) if !fresh && (a.h - h).abs() <= ulp => a.newt += 1,
                _ => out.push(Attempt { h, newt: 1, second: false }),
            }
            fresh = false;
            i += 3;
        } else if times[i] == t && !out.is_empty() {
            out.last_mut().unwrap().second = true;
            fresh = true;
            i += 1;
        } else if left == 1 {
            return Ok((out, 1));
        } else {
            return Err("evaluations are not those of collocation stages".into());
        }
    }
    Ok((out, 0))
}

/// plain and second error estimate of an implicit attempt, with uncertainty
fn ra_err(ctx: &Ctx, a: &Abs, t: f64, u: &[f64], h: f64, hunc: f64) -> Option<(Iv, Iv)> {
    let n = u.len();
    let (rt, at) = a.radau_tols();
    let w: Vec<f64> = (0..n).map(|i| at + rt * u[i].abs()).collect();
    let f = |t: f64, u: &[f64], o: &mut [f64]| ctx.eval(t, u, o);
    let j = |t: f64, u: &[f64], o: &mut [f64]| ctx.eval_jac(t, u, o);
    let z = || vec![0.0; n];
    let r = refs::radau_step(&f, &j, t, u, h, [z(), z(), z()], &w, 1e-9)?;
    let mut jm = vec![0.0; n * n];
    ctx.eval_jac(t, u, &mut jm);
    let mut f0 = z();
    ctx.eval(t, u, &mut f0);
    let fm = f0.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let e1 = refs::radau_err(n, &jm, h, &r.z, &f0)?;
    let y: Vec<f64> = (0..n).map(|i| u[i] + e1[i]).collect();
    ctx.eval(t, &y, &mut f0);
    let e2 = refs::radau_err(n, &jm, h, &r.z, &f0)?;
    let big = u.iter().chain(&r.z[0]).chain(&r.z[1]).chain(&r.z[2]).fold(0.0f64, |m, v| m.max(v.abs()));
    let terr = EPS * (t.abs() + h.abs());
    let slack = wrms(&vec![1000.0 * EPS * big + 20.0 * terr * fm.min(big * 1e3 / h.abs()); n], &w) + 1e-5;
    let iv = |e: &[f64]| {
        let x = wrms(e, &w);
        Iv::around(x, slack + x * (1e-4 + 10.0 * hunc / h.abs()))
    };
    Some((iv(&e1), iv(&e2)))
}

/// What each step of an implicit run looked like.
struct Record {
    k: usize,
    t: f64,
    u: Vec<f64>,
    /// step size proposed before and after
    before: f64,
    after: f64,
    list: Vec<Attempt>,
    jacobians: u64,
    factors: usize,
    more: bool,
}

fn record(sys: &Sys, a: &Abs, ulp: f64) -> Result<(Vec<Record>, Code), String> {
    let dir = (sys.t1 - sys.t0).signum();
    let mut ctx = Ctx::new(sys);
    ctx.times = Some(Default::default());
    let mut it = builder::<Radau5>(ctx, &sys.u0, (sys.t0, sys.t1), a).build();
    let mut out = vec![];
    for k in 1.. {
        let (t, u, before) = (it.t, it.u.to_vec(), it.dt.abs());
        let points = it.sol.ts.len();
        it.params.times.as_ref().unwrap().borrow_mut().clear();
        let (nj, nd) = (it.params.nj.get(), it.stats.decompositions);
        let more = it.step().is_some();
        if it.sol.ts.len() == points {
            break;
        }
        let times = it.params.times.as_ref().unwrap().borrow().clone();
        let (mut list, rest) = attempts(&times, t, dir, ulp)?;
        if rest != more as usize || list.is_empty() {
            return Err(format!("step {}: evaluations are not those of collocation stages", k));
        }
        // the first attempt is known better than through evaluation times
        let end = (sys.t1 - t).abs();
        let first = if 1.0001 * before >= end { end } else { before };
        let edge = (1.0001 * before / end - 1.0).abs() < 1e-9;
        let near = (list[0].h - first).abs() <= ulp;
        if !edge && !near {
            return Err(format!("step {}: first attempt is {:e} instead of {:e}", k, list[0].h, first));
        }
        if near {
            list[0].h = first;
        }
        out.push(Record {
            k,
            t,
            u,
            before,
            after: it.dt.abs(),
            list,
            jacobians: it.params.nj.get() - nj,
            factors: it.stats.decompositions - nd,
            more,
        });
        if !more {
            break;
        }
    }
    Ok((out, code(&it.sol.retcode)))
}

fn c24_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let mut a = Abs::new(&c.opt, &sys);
    a.jac = true;
    let safe = a.safe.unwrap_or(0.9);
    let most = a.max_newt.unwrap_or(7) as f64;
    let (grow, shrink) = (a.grow_limit(Which::Ra), a.shrink_limit(Which::Ra));
    let (q1, q2) = (a.quot1.unwrap_or(1.0), a.quot2.unwrap_or(1.2));
    let modern = a.modern.unwrap_or(true);
    let dtmax = a.dtmax.unwrap_or(f64::INFINITY);
    let dir = (sys.t1 - sys.t0).signum();
    let ulp = 8.0 * EPS * sys.t0.abs().max(sys.t1.abs());
    let (recs, code) = record(&sys, &a, ulp)?;
    let ctx = Ctx::new(&sys);
    let mut acc: Option<(Iv, Iv)> = None;
    // size left behind when the next step is the last
    let mut left: Option<Iv> = None;
    let mut tested = 0;
    for r in &recs {
        let last = r.list.len() - 1;
        for (j, at) in r.list.iter().enumerate() {
            let h = at.h;
            let hunc = if j == 0 { 0.0 } else { ulp };
            let (e1, e2) = match ra_err(&ctx, &a, r.t, &r.u, dir * h, hunc) {
                Some(e) => e,
                None => {
                    obs.count("reference not converged", 1);
                    if j == last {
                        left = None;
                        acc = Some((Iv(h, h), Iv(1e-2, 1.0)));
                    }
                    continue;
                }
            };
            let e = if at.second { e2 } else { e1 }.max(Iv::at(1e-10));
            let name = format!("step {}: attempt {:e} with error estimate {:.6}", r.k, h, e.1);
            // the second estimate is for first steps and retries with a large first one
            let again = r.k == 1 || j > 0;
            if at.second && (!again || e1.1 < 1.0) {
                return Err(format!("{} estimated twice", name));
            }
            if !at.second && again && e1.0 > 1.0 {
                return Err(format!("{} not estimated a second time", name));
            }
            let fac = safe.min(safe * (1.0 + 2.0 * most) / (at.newt as f64 + 2.0 * most));
            let mut quot = e.map(|x| x.powf(0.25) / fac).clip(1.0 / grow, 1.0 / shrink);
            let size = Iv::around(h, hunc);
            if j < last {
                obs.count("rejected attempts", 1);
                let to = r.list[j + 1].h;
                if e.1 < 1.0 {
                    return Err(format!("{} rejected", name));
                }
                let next = if r.k == 1 { size.map(|x| 0.1 * x) } else { size.over(quot) };
                if !next.has(to, 1e-7, 2.0 * ulp) {
                    return Err(format!("{} is followed by {:e}, not {:e}", name, to, next.0));
                }
                continue;
            }
            if e.0 > 1.0 {
                return Err(format!("{} accepted", name));
            }
            if modern {
                if let Some((ho, eo)) = acc {
                    let g = ho
                        .over(size)
                        .times(e.map(|x| x * x).over(eo).map(|x| x.powf(0.25)))
                        .map(|x| x / safe)
                        .clip(1.0 / grow, 1.0 / shrink);
                    quot = quot.max(g);
                }
                acc = Some((size, e.max(Iv::at(1e-2))));
            }
            if !r.more {
                if let Some(v) = left {
                    if code == Code::Success && !v.has(r.after, 1e-7, 2.0 * ulp) {
                        return Err(format!("{} leaves {:e} behind, not {:e} to {:e}", name, r.after, v.0, v.1));
                    }
                    obs.count("size after the last step", 1);
                }
                continue;
            }
            let mut next = size.over(quot).cap(dtmax);
            left = Some(Iv(next.0.min(size.0), next.1.min(size.1)));
            if last > 0 {
                next = next.cap(h + hunc);
            }
            let narrow = next.1 <= 1.2 * next.0;
            let end = (sys.t1 - (r.t + dir * h)).abs();
            let got = r.after;
            let tol = 1e-7;
            // three outcomes: go to the end, keep the size, take the new size
            let to_end = (got - end).abs() <= 2.0 * ulp;
            let kept = (got - h).abs() <= 2.0 * hunc;
            let may_end = next.1 / q1 * (1.0 + tol) >= end - 2.0 * ulp;
            let must_end = next.0 / q1 * (1.0 - tol) > end + 2.0 * ulp;
            let may_keep = next.1 >= q1 * h * (1.0 - tol) && next.0 <= q2 * h * (1.0 + tol);
            let must_keep = next.0 > q1 * h * (1.0 + tol) && next.1 < q2 * h * (1.0 - tol) && at.newt == 1;
            if to_end && may_end {
                obs.count("to the end", 1);
                continue;
            }
            if must_end {
                return Err(format!("{} is followed by {:e}, not the remaining {:e}", name, got, end));
            }
            if kept && may_keep {
                obs.count("kept", 1);
                tested += narrow as u64;
                continue;
            }
            if must_keep {
                return Err(format!("{} is followed by {:e}, not the same size", name, got));
            }
            if !next.has(got, tol, 2.0 * hunc) {
                return Err(format!("{} is followed by {:e}, not {:e} to {:e}", name, got, next.0, next.1));
            }
            obs.count("new size", 1);
            tested += narrow as u64;
        }
    }
    obs.nontrivial = tested > 4;
    obs.long(tested as usize);
    obs.count("steps", tested);
    obs.label(if c.prob.back { "backward" } else { "forward" });
    obs.label(if modern { "predictive" } else { "classical" });
    Ok(())
}

fn linear() -> BoxedStrategy<Case> {
    (
        prob(&ProbCfg { kinds: vec![(5, Kind::Lin), (1, Kind::Quad)], rate: (-0.5, 5.0), ..Default::default() }),
        wild(opt_ra(&OptCfg { rtol: (-7.0, -1.5), p: 0.4, dtstart: (-6.0, 0.5), ..Default::default() })),
    )
        .prop_map(|(prob, mut opt)| {
            opt.jac = true;
            opt.max_steps = Some(2000);
            Case { alg: Which::Ra, prob, opt }
        })
        .boxed()
}

pub fn c24(env: &Env) -> i32 {
    engine::runner::run(
        env,
        &Def {
            id: "C24",
            rule: "a run with more than four steps whose successor the law fixes to within 20 %",
            quick: 40000,
            thorough: 600000,
            strategy: &linear,
            case: &c24_case,
            assumptions: &["linear problems with the exact Jacobian, where the estimate does not depend on when the Newton iteration stops"],
        },
    )
}

fn c25_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let mut a = Abs::new(&c.opt, &sys);
    a.jac = true;
    let ulp = 8.0 * EPS * sys.t0.abs().max(sys.t1.abs());
    let (recs, ret) = record(&sys, &a, ulp)?;
    obs.nontrivial = recs.len() > 5;
    obs.long(recs.len());
    obs.label(&format!("{:?}", ret));
    let mut prev: Option<f64> = None;
    let (rt, tol) = a.radau_tols();
    for r in &recs {
        // corrections made of rounding errors tell nothing about convergence
        let big = r.u.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let least = r.u.iter().fold(f64::INFINITY, |m, v| m.min(tol + rt * v.abs()));
        if 100.0 * EPS * big > 1e-3 * a.radau_fnewt() * least {
            obs.count("steps at rounding level", 1);
            prev = None;
            continue;
        }
        obs.count("steps", 1);
        for at in &r.list {
            obs.count(&format!("{} iterations", at.newt), 1);
            if at.newt > 2 {
                return Err(format!("step {}: {} Newton iterations on a linear problem", r.k, at.newt));
            }
        }
        let rejected = r.list.len() as u64 - 1;
        if r.jacobians > rejected {
            return Err(format!(
                "step {}: {} Jacobians with {} rejected attempts of a linear problem",
                r.k, r.jacobians, rejected
            ));
        }
        // an unchanged step size needs no new factorization
        if let Some(h) = prev {
            let ends = (sys.t1 - r.t).abs() <= h * (1.0 + 1e-9);
            if r.more && !ends && h == r.list[0].h && h == r.before {
                obs.count("same size", 1);
                if r.factors as u64 > rejected {
                    return Err(format!("step {}: factorized again for the same step size", r.k));
                }
            }
        }
        prev = Some(r.list.last().unwrap().h).filter(|_| r.list.len() == 1);
    }
    Ok(())
}

pub fn c25(env: &Env) -> i32 {
    engine::runner::run(
        env,
        &Def {
            id: "C25",
            rule: "a run with more than five steps",
            quick: 60000,
            thorough: 1000000,
            strategy: &linear,
            case: &c25_case,
            assumptions: &[],
        },
    )
}
