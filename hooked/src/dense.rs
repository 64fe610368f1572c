//! C18: dense output of every accepted step against the methods' interpolants.
use crate::drive::*;
use cyphus_diffeq::dorm_prince::dp5::{verif_dense, DormandPrince5};
use cyphus_diffeq::ode::OdeIntegrator;
use cyphus_diffeq::radau::Radau5;
use cyphus_diffeq::verif::radau_dense;
use engine::la::wrms;
use engine::refs;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Kind, Prob, Sys};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// below this rounding is no longer relative
const TINY: f64 = 1e-300;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    alg: Which,
    prob: Prob,
    opt: Opt,
    /// fractions of the step at which to look
    th: Vec<f64>,
    /// changes made by a callback
    #[serde(default)]
    plan: Vec<(usize, Act)>,
}

fn start<'a, A: AlgX>(c: &Case, sys: &Sys, a: &Abs) -> OdeIntegrator<'a, Ctx, A> {
    let mut ctx = Ctx::new(sys);
    ctx.plan = c.plan.clone();
    let b = builder::<A>(ctx, &sys.u0, (sys.t0, sys.t1), a);
    if c.plan.is_empty() {
        b.build()
    } else {
        b.callback(&acting::<A>).build()
    }
}

/// looking at a step must not change those that follow
fn undisturbed<A: AlgX>(it: &OdeIntegrator<Ctx, A>, mut plain: OdeIntegrator<Ctx, A>) -> Result<(), String> {
    plain.integrate();
    if it.sol.ts != plain.sol.ts || it.sol.us != plain.sol.us {
        return Err("evaluating the dense output changes the steps that follow".into());
    }
    Ok(())
}

fn c18_dp(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let mut a = Abs::new(&c.opt, &sys);
    a.dense = true;
    let mut ctx = Ctx::new(&sys);
    let n = sys.n;
    let mut it = start::<DormandPrince5>(c, &sys, &a);
    let mut k = 0;
    loop {
        // as the callback has left them
        let u0 = it.u.to_vec();
        ctx.gain = it.params.gain;
        ctx.shift = it.params.shift;
        let more = it.step().is_some();
        if it.sol.ts.len() < 2 + k {
            break;
        }
        k += 1;
        let (t0, t1) = (it.sol.ts[k - 1], it.sol.ts[k]);
        let u1 = it.sol.us[k].to_vec();
        let h = it.dtprev;
        let f = |t: f64, u: &[f64], o: &mut [f64]| ctx.eval(t, u, o);
        let r = refs::dp_step(&f, t0, &u0, h);
        let un = u0.iter().chain(&u1).fold(0.0f64, |m, v| m.max(v.abs()));
        let kn = r.k.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
        let mut j = vec![0.0; n * n];
        ctx.eval_jac(t0, &u0, &mut j);
        let lip = (0..n)
            .map(|i| j[i * n..(i + 1) * n].iter().map(|v| v.abs()).sum::<f64>())
            .fold(0.0, f64::max)
            * h.abs();
        let eps = f64::EPSILON;
        let amp = (1.0 + lip).powi(6).min(1e6);
        let terr = eps * t0.abs().max(t1.abs());
        let allow = amp * (200.0 * eps * (un + h.abs() * kn) + 40.0 * terr * kn) + TINY;
        for th in [0.0, 1.0].iter().chain(&c.th) {
            let t = if *th == 0.0 {
                t0
            } else if *th == 1.0 {
                t1
            } else {
                t0 + th * h
            };
            let y = verif_dense(&mut it, t);
            let w = refs::dp_weights((t - t0) / h);
            for i in 0..n {
                let v = if *th == 0.0 {
                    u0[i]
                } else if *th == 1.0 {
                    u1[i]
                } else {
                    u0[i] + h * (0..7).map(|s| w[s] * r.k[s][i]).sum::<f64>()
                };
                let d = (y[i] - v).abs();
                obs.maxi("explicit deviation/rounding", d / allow);
                if !(d <= allow) {
                    return Err(format!(
                        "explicit step {} (t={:e} to {:e}) at fraction {}: component {} is {:e}, not {:e} ({:.1} allowances)",
                        k, t0, t1, th, i, y[i], v, d / allow
                    ));
                }
            }
            obs.count("points compared", 1);
        }
        if !more {
            break;
        }
    }
    obs.nontrivial = k > 3;
    obs.long(k);
    undisturbed(&it, start::<DormandPrince5>(c, &sys, &a))
}

fn c18_ra(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let mut a = Abs::new(&c.opt, &sys);
    a.dense = true;
    let mut ctx = Ctx::new(&sys);
    let n = sys.n;
    let fnewt = a.radau_fnewt();
    let (rt, at) = a.radau_tols();
    let mut it = start::<Radau5>(c, &sys, &a);
    let (cs, _) = refs::radau_tableau();
    let nodes = [0.0, cs[0], cs[1], 1.0];
    let linear = sys.constant_jacobian();
    let mut k = 0;
    let mut far = 0usize;
    let mut coarse = 0.0f64;
    let mut text = String::new();
    loop {
        // as the callback has left them
        let u0 = it.u.to_vec();
        ctx.gain = it.params.gain;
        ctx.shift = it.params.shift;
        let more = it.step().is_some();
        if it.sol.ts.len() < 2 + k {
            break;
        }
        k += 1;
        let (t0, t1) = (it.sol.ts[k - 1], it.sol.ts[k]);
        let u1 = it.sol.us[k].to_vec();
        let h = it.dtprev;
        let un = u0.iter().chain(&u1).fold(0.0f64, |m, v| m.max(v.abs()));
        let mut fu = vec![0.0; n];
        ctx.eval(t1, &u1, &mut fu);
        let eps = f64::EPSILON;
        let terr = eps * t0.abs().max(t1.abs());
        // the ends, and values at the collocation nodes as the interpolant has them
        let ends = [radau_dense(&mut it, t0).to_vec(), radau_dense(&mut it, t1).to_vec()];
        let mid: Vec<Vec<f64>> =
            (1..3).map(|s| radau_dense(&mut it, t1 + (nodes[s] - 1.0) * h).to_vec()).collect();
        // slope of the interpolant bounds what rounding of t does
        let steep = mid
            .iter()
            .chain(&ends)
            .map(|y| (0..n).map(|i| (y[i] - u0[i]).abs()).fold(0.0, f64::max))
            .fold(0.0, f64::max);
        let allow = 500.0 * eps * (un + steep) + 40.0 * terr / h.abs() * steep + TINY;
        for (e, u) in ends.iter().zip([&u0, &u1]) {
            for i in 0..n {
                let d = (e[i] - u[i]).abs();
                obs.maxi("implicit end deviation/rounding", d / allow);
                if !(d <= allow) {
                    return Err(format!(
                        "implicit step {} (t={:e} to {:e}): end value {} is {:e}, not {:e} ({:.1} allowances)",
                        k, t0, t1, i, e[i], u[i], d / allow
                    ));
                }
            }
        }
        // in between a cubic through the four nodes
        for th in &c.th {
            let y = radau_dense(&mut it, t1 + (th - 1.0) * h);
            for i in 0..n {
                let mut v = 0.0;
                let mut size = 0.0;
                for p in 0..4 {
                    let mut l = 1.0;
                    for q in 0..4 {
                        if q != p {
                            l *= (th - nodes[q]) / (nodes[p] - nodes[q]);
                        }
                    }
                    let x = match p {
                        0 => ends[0][i],
                        3 => ends[1][i],
                        _ => mid[p - 1][i],
                    };
                    v += l * x;
                    size += (l * (x - u1[i])).abs();
                }
                let d = (y[i] - v).abs();
                let allow = allow * 20.0 + 200.0 * eps * size;
                obs.maxi("implicit cubic deviation/rounding", d / allow);
                if !(d <= allow) {
                    return Err(format!(
                        "implicit step {} (t={:e} to {:e}) at fraction {}: component {} is {:e}, the cubic through the nodes {:e}",
                        k, t0, t1, th, i, y[i], v
                    ));
                }
            }
            obs.count("points compared", 1);
        }
        // the stage values solve the collocation equations
        let w: Vec<f64> = (0..n).map(|i| at + rt * u0[i].abs()).collect();
        let g = |s: usize| {
            (0..n).map(|i| if s < 2 { mid[s][i] } else { u1[i] } - u0[i]).collect::<Vec<f64>>()
        };
        let f = |t: f64, u: &[f64], o: &mut [f64]| ctx.eval(t, u, o);
        let jf = |t: f64, u: &[f64], o: &mut [f64]| ctx.eval_jac(t, u, o);
        let r = match refs::radau_step(&f, &jf, t0, &u0, h, [g(0), g(1), g(2)], &w, 1e-9) {
            Some(r) => r,
            None => {
                obs.count("reference not converged", 1);
                if !more {
                    break;
                }
                continue;
            }
        };
        // uncertainty of the difference Jacobians so far, relative to the step
        let mut jm = vec![0.0; n * n];
        ctx.eval_jac(t0, &u0, &mut jm);
        let size = (0..n).map(|i| (0..n).map(|k| jm[i * n + k].abs() * un).sum()).fold(0.0f64, f64::max);
        let fm = fu.iter().fold(size, |m, v| m.max(v.abs()));
        let least = u0.iter().fold(f64::INFINITY, |m, v| m.min(v.abs()));
        if !a.jac {
            coarse = coarse.max(eps * fm / (eps * least.max(1e-5)).sqrt());
        }
        let blur = (coarse * h).abs() * wrms(&vec![un; n], &w);
        let slack =
            wrms(&(0..n).map(|_| 2.0 * allow).collect::<Vec<f64>>(), &w);
        let mut dev = 0.0f64;
        for s in 0..2 {
            let d: Vec<f64> = (0..n).map(|i| u0[i] + r.z[s][i] - mid[s][i]).collect();
            dev = dev.max(wrms(&d, &w));
        }
        let q = (dev - slack) / fnewt;
        obs.count("stages compared", 2);
        obs.maxi(if linear { "stage deviation/fnewt (linear)" } else { "stage deviation/fnewt (nonlinear)" }, q);
        let m = format!(
            "implicit step {} (t={:e} to {:e}): values inside the step are {:.2e} tolerances off the collocation solution (Newton tolerance {:.1e})",
            k, t0, t1, dev, fnewt
        );
        if linear && !(q <= 100.0 + blur / fnewt) {
            return Err(m);
        }
        if !(q <= 100.0) {
            far += 1;
            text = m;
        }
        if !more {
            break;
        }
    }
    obs.maxi("share of far steps", (far as f64 - 5.0) / k.max(1) as f64);
    if far as f64 > 5.0 + 0.1 * k as f64 {
        return Err(format!("{} of {} steps deviate: {}", far, k, text));
    }
    obs.nontrivial = k > 3;
    obs.long(k);
    undisturbed(&it, start::<Radau5>(c, &sys, &a))
}

fn c18_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    obs.label(&format!("{:?}", c.alg));
    obs.label(if c.prob.back { "backward" } else { "forward" });
    obs.label(&format!("kind {:?}", c.prob.kind));
    if !c.plan.is_empty() {
        obs.label("with callback");
    }
    match c.alg {
        Which::Dp => c18_dp(c, obs),
        Which::Ra => c18_ra(c, obs),
    }
}

pub fn c18(env: &Env) -> i32 {
    let strat = || {
        let th = || prop::collection::vec((1i32..100).prop_map(|v| v as f64 / 100.0), 3);
        let act = prop_oneof![
            2 => (grid((-2.0, 2.0)), grid((-2.0, 2.0))).prop_map(|(a, b)| Act::State(a, b)),
            1 => grid((-3.0, 3.0)).prop_map(Act::Shift),
            1 => Just(Act::Size(0.5)),
        ];
        let plan = prop_oneof![
            3 => Just(vec![]),
            1 => prop::collection::vec((0usize..20, act), 1..4),
        ];
        let kinds = vec![
            (3, Kind::Lin),
            (2, Kind::Diag),
            (1, Kind::Quad),
            (2, Kind::Net),
            (1, Kind::Pendulum),
            (1, Kind::Brussel),
        ];
        let dp = (
            prob(&ProbCfg { kinds: kinds.clone(), nmax: 8, rate: (-0.5, 1.5), ..Default::default() }),
            opt_dp(&OptCfg { rtol: (-9.0, -2.0), ..Default::default() }),
            th(),
        )
            .prop_map(|(prob, opt, th)| Case { alg: Which::Dp, prob, opt, th, plan: vec![] });
        let ra = (
            prob(&ProbCfg { kinds, nmax: 6, rate: (-0.5, 5.0), ..Default::default() }),
            opt_ra(&OptCfg { rtol: (-7.0, -2.0), ..Default::default() }),
            th(),
        )
            .prop_map(|(prob, mut opt, th)| {
                if !matches!(prob.kind, Kind::Lin | Kind::Quad) {
                    opt.ext_col = None;
                }
                Case { alg: Which::Ra, prob: fit(prob, &opt), opt, th, plan: vec![] }
            });
        (prop_oneof![dp, ra], plan).prop_map(|(c, plan)| Case { plan, ..c }).boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C18",
            rule: "a run with more than three accepted steps",
            quick: 40000,
            thorough: 800000,
            strategy: &strat,
            case: &c18_case,
            assumptions: &["rounding allowances as in C03/C04; stage values of nonlinear implicit steps judged by share"],
        },
    )
}
