//! C31: runs of different length from the same start.
use crate::drive::*;
use crate::mesh::{all_kinds, either, Case};
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::radau::Radau5;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::Sys;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    base: Case,
    /// log10 of the ratio of the lengths; none: no end at all
    ratio: Option<f64>,
}

struct Trace {
    ts: Vec<f64>,
    us: Vec<Vec<f64>>,
    /// size to be tried next at each point, and the work so far
    dts: Vec<f64>,
    work: Vec<[usize; 7]>,
    code: Code,
}

/// Steps until the end or `limit` points.
fn trace<A: AlgX>(sys: &Sys, end: f64, a: &Abs, limit: usize) -> Trace {
    let mut it = builder::<A>(Ctx::new(sys), &sys.u0, (sys.t0, end), a).build();
    let mut tr = Trace { ts: vec![], us: vec![], dts: vec![], work: vec![], code: Code::Continue };
    loop {
        let m = it.sol.ts.len();
        if m > tr.dts.len() {
            let s = &it.stats;
            tr.dts.push(it.dt);
            tr.work.push([
                s.function_evals,
                s.jacobian_evals,
                s.steps,
                s.accepts,
                s.rejects,
                s.decompositions,
                s.linear_solves,
            ]);
        }
        if m >= limit || it.step().is_none() {
            if it.sol.ts.len() > tr.dts.len() {
                continue;
            }
            break;
        }
    }
    tr.ts = it.sol.ts.clone();
    tr.us = it.sol.us.iter().map(|u| u.to_vec()).collect();
    tr.code = code(&it.sol.retcode);
    tr
}

fn same(a: &[f64], b: &[f64]) -> bool {
    a.iter().map(|v| v.to_bits()).eq(b.iter().map(|v| v.to_bits()))
}

fn c31_case(c: &Far, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.base.prob);
    let mut a = Abs::new(&c.base.opt, &sys);
    a.dtmax = Some(a.dtmax.unwrap_or(sys.length()));
    let end = match c.ratio {
        Some(r) => sys.t0 + (sys.t1 - sys.t0) * 10f64.powf(r),
        None => (sys.t1 - sys.t0).signum() * f64::INFINITY,
    };
    let go = |end: f64, limit: usize| match c.base.alg {
        Which::Dp => trace::<DormandPrince5>(&sys, end, &a, limit),
        Which::Ra => trace::<Radau5>(&sys, end, &a, limit),
    };
    let near = go(sys.t1, usize::MAX);
    let far = go(end, near.ts.len() + 1);
    let both = near.ts.len().min(far.ts.len());
    let m = (0..both)
        .find(|&k| near.ts[k].to_bits() != far.ts[k].to_bits() || !same(&near.us[k], &far.us[k]))
        .unwrap_or(both);
    obs.nontrivial = m > 3;
    obs.long(m);
    obs.label(&format!("{:?} {:?}", c.base.alg, near.code));
    obs.label(if c.ratio.is_some() { "finite ends" } else { "no end" });
    obs.label(if c.base.prob.back { "backward" } else { "forward" });
    if m == 0 {
        return Err("the initial points differ".into());
    }
    // the point from which the nearer end was in reach
    let k = m - 1;
    let mut reached = false;
    for i in 0..=k {
        if !reached && near.work[i] != far.work[i] && !(i == k && m == near.ts.len()) {
            return Err(format!("work differs at point {}: {:?} and {:?}", i, near.work[i], far.work[i]));
        }
        // the rest of the way may happen to be the step that would be taken anyway
        let rest = sys.t1 - near.ts[i];
        let ulp = 4.0 * f64::EPSILON * sys.t1.abs().max(near.ts[i].abs());
        let onto = (near.dts[i] - rest).abs() <= ulp && (far.dts[i] - rest).abs() <= ulp;
        if i < k && !onto && near.dts[i].to_bits() != far.dts[i].to_bits() {
            return Err(format!("next step at point {}: {:e} and {:e}", i, near.dts[i], far.dts[i]));
        }
        reached |= onto;
    }
    let apart = m < near.ts.len();
    if near.code != Code::Success {
        // the end is not the reason, unless it was tried
        obs.label(if apart { "gave up after trying the end" } else { "gave up" });
    }
    let other = near.code != Code::Success && (m < far.ts.len() || far.code != near.code);
    if !apart && !other {
        return Ok(());
    }
    let rest = (sys.t1 - near.ts[k]).abs();
    let most = match c.base.alg {
        Which::Dp => 1.01,
        // the factorizations may have been kept for a somewhat smaller step than allowed
        Which::Ra => (a.quot2.unwrap_or(1.2).max(1.0) / a.quot1.unwrap_or(1.0).min(1.0)).max(1.0001),
    };
    let reach = far.dts[k].abs() * most * (1.0 + 1e-9) + 4.0 * f64::EPSILON * sys.t1.abs().max(near.ts[k].abs());
    obs.maxi("distance of the end in steps", rest / far.dts[k].abs());
    if rest > reach {
        return Err(format!(
            "the runs part at point {} (t={:e}), {:e} before the nearer end, with a step of {:e}",
            k, near.ts[k], rest, far.dts[k]
        ));
    }
    Ok(())
}

pub fn c31(env: &Env) -> i32 {
    let strat = || {
        (
            either(
                ProbCfg { kinds: all_kinds(), span: (0.3, 8.0), ..Default::default() },
                OptCfg { few: 0.02, ..Default::default() },
            ),
            prop_oneof![9 => grid((0.01, 6.0)).prop_map(Some), 1 => Just(None)],
        )
            .prop_map(|(base, ratio)| Far { base, ratio })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C31",
            rule: "runs with more than three points in common",
            quick: 100000,
            thorough: 2000000,
            strategy: &strat,
            case: &c31_case,
            assumptions: &[],
        },
    )
}
