//! C01, C02: recorded states against the exact solution.
use crate::drive::*;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Kind, Prob, Sys};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prob: Prob,
    pub opt: Opt,
}

pub fn kinds() -> Vec<(u32, Kind)> {
    vec![(4, Kind::Lin), (4, Kind::Diag), (1, Kind::Quad)]
}

/// largest error in units of abstol + reltol * |u|
pub fn worst(sys: &Sys, steep: f64, reltol: f64, abstol: f64, o: &Out) -> (f64, usize) {
    let mut big = 0.0f64;
    let mut worst = (0.0f64, 0);
    for (k, (t, u)) in o.ts.iter().zip(&o.us).enumerate() {
        let e = sys.exact(*t).unwrap();
        for v in &e {
            big = big.max(v.abs());
        }
        // rounding of times and states
        let w = abstol + reltol * big + f64::EPSILON * (big + t.abs() * steep);
        for i in 0..u.len() {
            let r = (u[i] - e[i]).abs() / w;
            if !(r <= worst.0) {
                worst = (r, k);
            }
        }
    }
    worst
}

/// Settings under which the tolerance can be met.
pub fn settings(c: &Case, w: Which, sys: &Sys) -> Abs {
    let mut a = Abs::new(&c.opt, sys);
    // difference quotients follow the tail of w' = -k w |w| slowly
    a.max_steps = Some(100000);
    if w == Which::Ra {
        // an initial step far beyond the initial transient cannot see it
        let h = a.dtstart.unwrap_or(1e-6);
        a.dtstart = Some(h.min(0.1 / (10f64.powf(c.prob.rate.max(0.5)) * sys.kappa)));
    }
    if let (Which::Dp, Some(h)) = (w, a.dtstart) {
        // the estimate of a step over several time constants may vanish by chance
        a.dtstart = Some(h.min(0.7 / (10f64.powf(c.prob.rate.max(0.0)) * sys.kappa)));
    }
    // The estimate of a quadrature can vanish by aliasing when a step spans a
    // whole period of the integrand.
    if c.prob.kind == Kind::Quad {
        let h = a.dtmax.unwrap_or(f64::INFINITY);
        a.dtmax = Some(h.min(0.5 / sys.kappa));
    }
    a
}

/// Error allowed, in units of the tolerance.
pub fn allowed(c: &Case, w: Which, sys: &Sys) -> f64 {
    match w {
        Which::Dp => 200.0,
        // without extrapolated starting values the Newton iteration may stop early
        Which::Ra if c.opt.ext_col == Some(false) && !sys.constant_jacobian() => 2000.0,
        Which::Ra if !sys.constant_jacobian() => 500.0,
        Which::Ra => 200.0,
    }
}

/// Rates at which rounding of times is felt.
pub fn steep(c: &Case, sys: &Sys) -> f64 {
    10f64.powf(c.prob.rate.max(0.5).min(1.0)) * sys.kappa * sys.amp
}

/// The estimate of one long step may vanish by chance. It does not at other tolerances.
pub fn chance(w: Which, sys: &Sys, a: &Abs, steep: f64, bound: f64, go: &dyn Fn(&Abs) -> Out) -> bool {
    [(0.7, 1.0), (0.4, 1.0), (0.03, 0.25), (0.003, 0.25)].iter().all(|(x, part)| {
        let mut b = a.clone();
        b.reltol *= x;
        b.abstol *= x;
        let (rt, at) = if w == Which::Ra { b.radau_tols() } else { (b.reltol, b.abstol) };
        let o = go(&b);
        o.code == Code::Success && worst(sys, steep, rt, at, &o).0 <= part * bound
    })
}

fn common(c: &Case, w: Which, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let a = settings(c, w, &sys);
    let o = run(w, &sys, &a);
    if o.code != Code::Success {
        return Err(format!("return code {:?} after {} points", o.code, o.ts.len()));
    }
    // the implicit method works with its own transformed tolerances
    let (rt, at) = if w == Which::Ra { a.radau_tols() } else { (a.reltol, a.abstol) };
    let steep = steep(c, &sys);
    let (r, k) = worst(&sys, steep, rt, at, &o);
    let bound = allowed(c, w, &sys);
    obs.nontrivial = o.ts.len() > 5;
    obs.label(&format!("kind {:?}", c.prob.kind));
    obs.label(if c.prob.back { "backward" } else { "forward" });
    obs.label(&format!("n {}", if sys.n < 4 { "1-3" } else { "4+" }));
    if o.st.rejects > 0 {
        obs.label("with rejections");
    }
    if o.ts.len() > 1000 {
        obs.label("more than 1000 steps");
    }
    if w == Which::Ra {
        obs.label(if c.opt.jac { "analytic Jacobian" } else { "difference Jacobian" });
        obs.label(&format!("rate 1e{}", c.prob.rate.floor()));
    }
    obs.label(&format!("reltol 1e{}", c.opt.rtol.floor()));
    obs.count(&format!("error/tolerance below 2^{}", r.max(1e-2).log2().ceil()), 1);
    obs.maxi(&format!("error/tolerance reltol 1e{}", c.opt.rtol.floor()), r);
    obs.maxi(&format!("error/tolerance {:?}", c.prob.kind), r);
    obs.maxi("steps", o.ts.len() as f64);
    if r > bound && r < 1e5 && chance(w, &sys, &a, steep, bound, &|b| run(w, &sys, b)) {
        obs.label("a large error by chance");
        return Ok(());
    }
    if !(r <= bound) {
        return Err(format!(
            "error is {:.3e} tolerances at point {} of {} (t={:e})",
            r, k, o.ts.len(), o.ts[k]
        ));
    }
    Ok(())
}

pub fn c01(env: &Env) -> i32 {
    let strat = || {
        let p = prob(&ProbCfg { kinds: kinds(), nmax: 10, rate: (-0.5, 1.0), ..Default::default() });
        let o = opt_dp(&OptCfg { rtol: (-11.5, -2.5), ..Default::default() });
        (p, o).prop_map(|(p, opt)| Case { prob: calm(p, &opt), opt }).boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C01",
            rule: "a run with more than five accepted steps whose exact solution is known",
            quick: 120000,
            thorough: 3000000,
            strategy: &strat,
            case: &|c, o| common(c, Which::Dp, o),
            assumptions: &["error allowed: a fixed multiple of abstol + reltol*|u|, |u| the largest exact magnitude so far"],
        },
    )
}

pub fn c02(env: &Env) -> i32 {
    let strat = || {
        let p = prob(&ProbCfg { kinds: kinds(), nmax: 10, rate: (-0.5, 7.0), ..Default::default() });
        let o = opt_ra(&OptCfg { rtol: (-9.0, -2.5), ..Default::default() });
        (p, o).prop_map(|(p, opt)| Case { prob: fit(p, &opt), opt }).boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C02",
            rule: "a run with more than five accepted steps whose exact solution is known",
            quick: 120000,
            thorough: 3000000,
            strategy: &strat,
            case: &|c, o| common(c, Which::Ra, o),
            assumptions: &["error allowed: a fixed multiple of abstol + reltol*|u|, |u| the largest exact magnitude so far"],
        },
    )
}
