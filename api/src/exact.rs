//! C29, C30: problems that both methods solve exactly.
use crate::drive::*;
use crate::mesh::{all_kinds, either, mesh_ok, Case};
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::radau::Radau5;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Kind, Sys};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const EPS: f64 = f64::EPSILON;

fn follow(w: Which, sys: &Sys, track: Track, u0: &[f64], a: &Abs) -> Out {
    let mut ctx = Ctx::new(sys);
    ctx.track = Some(track);
    let span = (sys.t0, sys.t1);
    match w {
        Which::Dp => run_ctx::<DormandPrince5>(ctx, u0, span, a),
        Which::Ra => run_ctx::<Radau5>(ctx, u0, span, a),
    }
}

/// Without errors every step is as long as the limits allow.
fn unhindered(w: Which, o: &Out, sys: &Sys, a: &Abs) -> Result<(), String> {
    let m = o.ts.len();
    if o.st.rejects != 0 || o.st.steps != m - 1 || o.st.accepts != m - 1 {
        return Err(format!("{} points, {} rejections, {} attempts", m, o.st.rejects, o.st.steps));
    }
    let grow = a.grow_limit(w);
    let dtmax = a.dtmax.unwrap_or(sys.length()).min(sys.length());
    let (q1, q2) = (a.quot1.unwrap_or(1.0), a.quot2.unwrap_or(1.2));
    let ulp = 4.0 * EPS * sys.t0.abs().max(sys.t1.abs());
    for k in 2..m {
        let (h0, h) = ((o.ts[k - 1] - o.ts[k - 2]).abs(), (o.ts[k] - o.ts[k - 1]).abs());
        let mut want = (h0 * grow).min(dtmax);
        let q = want / h0;
        let slack = 1e-9 * want + 4.0 * grow * ulp;
        if k + 1 == m {
            // cut down or stretched to the end
            let most = if w == Which::Dp { 1.0101 } else { (1.0 / q1).max(1.0101) };
            if h > want * most + slack {
                return Err(format!("last step {:e} where {:e} was allowed", h, want));
            }
            continue;
        }
        if w == Which::Ra && q >= q1 - 1e-9 && q <= q2 + 1e-9 {
            if (h - h0).abs() <= slack {
                continue;
            }
            if q > q1 + 1e-9 && q < q2 - 1e-9 {
                want = h0;
            }
        }
        if !((h - want).abs() <= slack) {
            return Err(format!("step {}: {:e} after {:e}, {:e} was allowed", k, h, h0, want));
        }
    }
    Ok(())
}

fn c29_case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let a = Abs::new(&c.opt, &sys);
    let co = sys.u0.iter().map(|&v| [v, 0.0, 0.0, 0.0, 0.0, 0.0]).collect();
    let o = follow(c.alg, &sys, Track { co, free: false }, &sys.u0, &a);
    obs.nontrivial = o.ts.len() > 3;
    obs.long(o.ts.len());
    obs.label(&format!("{:?} {:?}", c.alg, sys.kind));
    if o.code != Code::Success {
        return Err(format!("return code {:?}", o.code));
    }
    mesh_ok(&o, &sys.u0, sys.t0, sys.t1)?;
    for k in 0..o.ts.len() {
        if o.us[k] != sys.u0 {
            return Err(format!("point {}: {:?} instead of {:?}", k, o.us[k], sys.u0));
        }
    }
    unhindered(c.alg, &o, &sys, &a)?;
    let steps = o.ts.len() - 1;
    match c.alg {
        Which::Dp => {
            if o.nf - o.nf0 != 6 * steps as u64 {
                return Err(format!("{} evaluations in {} steps", o.nf - o.nf0, steps));
            }
        }
        Which::Ra => {
            // one iteration settles it
            if o.st.linear_solves != steps {
                return Err(format!("{} iterations in {} steps", o.st.linear_solves, steps));
            }
        }
    }
    Ok(())
}

pub fn c29(env: &Env) -> i32 {
    let strat = || either(ProbCfg { kinds: all_kinds(), span: (0.5, 8.0), ..Default::default() }, OptCfg::default());
    engine::runner::run(
        env,
        &Def {
            id: "C29",
            rule: "a run with more than three recorded points",
            quick: 600000,
            thorough: 10000000,
            strategy: &strat,
            case: &c29_case,
            assumptions: &[],
        },
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Poly {
    base: Case,
    degree: usize,
    free: bool,
    /// coefficients in terms of the length of the interval
    co: Vec<f64>,
}

fn c30_case(c: &Poly, obs: &mut Obs) -> Result<(), String> {
    let w = c.base.alg;
    let sys = Sys::new(&c.base.prob);
    let a = Abs::new(&c.base.opt, &sys);
    let len = sys.sigma * sys.length();
    let co: Vec<[f64; 6]> = (0..sys.n)
        .map(|i| {
            let mut v = [0.0; 6];
            for j in 0..=c.degree {
                v[j] = sys.amp * c.co[(6 * i + 5 * j + i / 7) % c.co.len()] / len.powi(j as i32);
            }
            v
        })
        .collect();
    let track = Track { co, free: c.free };
    let u0: Vec<f64> = track.co.iter().map(|v| v[0]).collect();
    let o = follow(w, &sys, track.clone(), &u0, &a);
    let m = o.ts.len();
    obs.nontrivial = m > 3;
    obs.long(m);
    obs.label(&format!("{:?} degree {} {}", w, c.degree, if c.free { "alone" } else { "coupled" }));
    if o.code != Code::Success {
        return Err(format!("return code {:?}", o.code));
    }
    mesh_ok(&o, &u0, sys.t0, sys.t1)?;
    let exact = c.free || a.jac;
    let (rt, at) = a.radau_tols();
    let fnewt = a.radau_fnewt();
    let late = sys.t0.abs().max(sys.t1.abs()) / sys.length();
    let mut small = f64::INFINITY;
    let slopes: Vec<f64> = track
        .co
        .iter()
        .map(|co| co.iter().enumerate().map(|(j, v)| (v * j as f64 * len.powi(j as i32)).abs()).sum())
        .collect();
    let total: f64 = (0..sys.n).map(|i| track.co[i].iter().enumerate().map(|(j, v)| (v * len.powi(j as i32)).abs()).sum::<f64>()).fold(0.0, f64::max);
    for k in 0..m {
        let t = o.ts[k] - sys.t0;
        for i in 0..sys.n {
            let u = o.us[k][i];
            let p = track.value(i, t);
            // all components are mixed in a coupled system
            let mag = if c.free {
                track.co[i].iter().enumerate().map(|(j, v)| (v * t.powi(j as i32)).abs()).sum::<f64>()
            } else {
                total
            };
            let slope = if c.free { slopes[i] } else { slopes.iter().cloned().fold(0.0, f64::max) };
            let mut allow = EPS * ((30 + k) as f64 * mag + (10 + k) as f64 * late * slope) + f64::MIN_POSITIVE;
            if !c.free {
                // the fast components' rounding errors leak into the slow ones
                allow += 2.0 * EPS * total * 10f64.powf(c.base.prob.rate) * sys.kappa * t.abs();
            }
            if !exact {
                allow += 100.0 * fnewt * k as f64 * (at + rt * total);
            }
            let d = (u - p).abs() / (4.0 * allow);
            obs.maxi(&format!("{:?} deviation {} {}", w, if c.free { "alone" } else { "coupled" }, if exact { "" } else { "difference quotients" }), d);
            if !(d <= 1.0) {
                return Err(format!("point {} component {}: {:e} instead of {:e}, allowed {:e}", k, i, u, p, 4.0 * allow));
            }
            let (r, b) = if w == Which::Dp { (a.reltol, a.abstol) } else { (rt, at) };
            small = small.min((b + r * p.abs()) / (EPS * (total * 100.0 + late * slope)));
        }
    }
    if exact && c.degree <= (if w == Which::Dp { 4 } else { 3 }) && small > 1e9 * (1.0 + if c.free { 0.0 } else { 10f64.powf(c.base.prob.rate) * sys.span / 50.0 }) {
        obs.label(&format!("{:?} steps as long as allowed", w));
        unhindered(w, &o, &sys, &a)?;
    }
    Ok(())
}

pub fn c30(env: &Env) -> i32 {
    let strat = || {
        (
            either(
                ProbCfg { kinds: vec![(1, Kind::Lin)], span: (0.5, 8.0), ..Default::default() },
                OptCfg { rtol: (-10.0, 0.0), ..Default::default() },
            ),
            0usize..=5,
            any::<bool>(),
            prop::collection::vec((-100i32..=100).prop_map(|v| v as f64 / 50.0), 31),
        )
            .prop_map(|(base, degree, free, co)| {
                let free = free || base.alg == Which::Dp;
                Poly { base, degree: if free { degree } else { degree.min(3) }, free, co }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C30",
            rule: "a run with more than three recorded points",
            quick: 600000,
            thorough: 10000000,
            strategy: &strat,
            case: &c30_case,
            assumptions: &["rounding is allowed 120 units and four more for each step"],
        },
    )
}
