//! C28: singular iteration matrices of the implicit method.
use crate::drive::*;
use crate::mesh::mesh_ok;
use crate::steps::ra_check;
use cyphus_diffeq::radau::Radau5;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Kind, Prob, Sys, WIDTH};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prob: Prob,
    opt: Opt,
    /// which of the matrices is singular at the step, at half of it and so on
    complex: Vec<bool>,
    /// the added components come first
    lead: bool,
    /// at the first step rather than on the way
    start: bool,
    /// which of the possible steps
    at: f64,
    /// powers of two by which complex pairs are unbalanced
    skew: i32,
    /// further singular matrices at later steps, each at one of the possible ones
    #[serde(default)]
    later: Vec<f64>,
}

/// Eigenvalues of the inverse of the Radau IIA matrix.
pub const U1: f64 = 3.637834252744496;
const ALPHA: f64 = 2.681082873627752;
const BETA: f64 = 3.050430199247411;

/// Run with singular points; what each call of step() started from and did.
struct Trace {
    out: Out,
    starts: Vec<Start>,
}

struct Start {
    t: f64,
    dt: f64,
    points: usize,
    /// evaluations made by the step
    calls: Vec<(bool, f64)>,
}

/// number moved by units in the last place
fn nudge(x: f64, k: i64) -> f64 {
    f64::from_bits((x.to_bits() as i64 + k) as u64)
}

type Shift = (i64, [i64; 2]);

fn mode(complex: bool, skew: i32, h: f64, shift: Shift) -> Mode {
    if complex {
        Mode::Pair(nudge(ALPHA / h, shift.1[0]), nudge(BETA / h, shift.1[1]), skew)
    } else {
        Mode::Real(nudge(U1 / h, shift.0))
    }
}

fn modes(c: &Case, h: f64, shift: Shift) -> Vec<Mode> {
    (0..c.complex.len())
        .map(|j| mode(c.complex[j], c.skew, h * 0.5f64.powi(j as i32), shift))
        .chain(c.later.iter().map(|_| Mode::Real(0.0)))
        .collect()
}

fn resting(c: &Case) -> Vec<Mode> {
    c.complex
        .iter()
        .map(|z| if *z { Mode::Pair(0.0, 0.0, 0) } else { Mode::Real(0.0) })
        .chain(c.later.iter().map(|_| Mode::Real(0.0)))
        .collect()
}

fn trace(sys: &Sys, a: &Abs, lead: bool, extra: Vec<Mode>, limit: usize) -> Trace {
    let mut ctx = Ctx::new(sys);
    let e: usize = extra.iter().map(|m| m.width()).sum();
    let mut u0 = vec![0.0; sys.n + e];
    let o = if lead { e } else { 0 };
    u0[o..o + sys.n].copy_from_slice(&sys.u0);
    ctx.extra = extra;
    ctx.lead = lead;
    ctx.calls = Some(Default::default());
    let mut it = builder::<Radau5>(ctx, &u0, (sys.t0, sys.t1), a).build();
    let (nf0, nj0) = (it.params.nf.get(), it.params.nj.get());
    let mut starts: Vec<Start> = vec![];
    let mut marks = vec![it.stats.clone()];
    loop {
        let seen = it.params.calls.as_ref().unwrap().borrow().len();
        let (t, dt, points) = (it.t, it.dt, it.sol.ts.len());
        let more = it.step().is_some();
        let calls =
            it.params.calls.as_ref().unwrap().borrow()[seen..].iter().map(|c| (c.jac, c.t)).collect();
        starts.push(Start { t, dt, points, calls });
        if it.sol.ts.len() > marks.len() {
            marks.push(it.stats.clone());
        }
        if !more || starts.len() >= limit {
            break;
        }
    }
    let mut out = snapshot(&it, nf0, nj0);
    out.marks = marks;
    for u in out.us.iter_mut() {
        if lead {
            u.rotate_left(e);
        }
    }
    Trace { out, starts }
}

/// size the first attempt of a step has
fn first(s: &Start, end: f64, dir: f64) -> f64 {
    if (s.t + s.dt * 1.0001 - end) * dir >= 0.0 {
        end - s.t
    } else {
        s.dt
    }
}

/// size of the first attempt seen in the evaluation times
fn seen(s: &Start) -> Option<f64> {
    let f: Vec<f64> = s.calls.iter().filter(|c| !c.0).take(3).map(|c| c.1 - s.t).collect();
    if f.len() < 3 {
        return None;
    }
    Some(f.iter().fold(0.0, |m: f64, x| if x.abs() > m.abs() { *x } else { m }))
}

/// whether a step of size x can come to a size with a singular matrix
fn same(x: f64, h: f64, count: usize) -> bool {
    let m = (x / h).abs().log2();
    m > 0.5 - count as f64 && (m - m.round()).abs() < 1e-6
}

/// the first attempt of a step uses the Jacobian at its start
fn fresh(r: &Trace, k: usize, t0: f64) -> Result<(), String> {
    let s = &r.starts[k];
    let before: Vec<f64> = r.starts[..k]
        .iter()
        .flat_map(|s| s.calls.iter())
        .chain(s.calls.iter().take_while(|x| x.0))
        .filter(|x| x.0)
        .map(|x| x.1)
        .collect();
    if *before.last().unwrap_or(&t0) != s.t {
        return Err(format!("the Jacobian of an earlier point is kept after a singular matrix at t={:e}", s.t));
    }
    Ok(())
}

/// Singular matrices at later steps, one at each.
fn more(c: &Case, sys: &Sys, a: &Abs, mut m: Vec<Mode>, mut r: Trace, k: usize, obs: &mut Obs) -> Result<(), String> {
    let dir = (sys.t1 - sys.t0).signum();
    let scale = sys.t0.abs().max(sys.t1.abs());
    let mut from = k + 1;
    for (j, at) in c.later.iter().enumerate() {
        let total = c.complex.len() + j + 1;
        let sizes: Vec<f64> = r.starts.iter().map(|s| first(s, sys.t1, dir)).collect();
        let taken: Vec<f64> = r.out.ts.windows(2).map(|w| w[1] - w[0]).collect();
        let picks: Vec<usize> = (from..sizes.len())
            .filter(|i| {
                let mut used = sizes[..*i].iter().chain(&taken[..*i]);
                sizes[*i].abs() > 1e-9 * scale && !used.any(|x| same(*x, sizes[*i], 1))
            })
            .collect();
        if picks.is_empty() {
            return Ok(());
        }
        let i = picks[((picks.len() as f64 * at) as usize).min(picks.len() - 1)];
        let h = sizes[i];
        let found = [0, 1, -1, 2, -2].iter().find_map(|x| {
            m[total - 1] = mode(false, 0, h, (*x, [0, 0]));
            let q = trace(sys, a, c.lead, m.clone(), usize::MAX);
            let cut = q.starts.len() > i && seen(&q.starts[i]).map_or(true, |x| (x / h).abs() < 0.75);
            if cut { Some(q) } else { None }
        });
        let q = match found {
            Some(q) => q,
            None => return Err(format!("step {} of size {:e} is attempted with a singular real matrix", i, h)),
        };
        obs.count("singular matrices at later steps", 1);
        let (o, s) = (&q.out, &q.starts[i]);
        for p in 0..s.points {
            if r.out.ts[p] != o.ts[p] || r.out.us[p] != o.us[p] {
                return Err(format!("point {} depends on a later singular matrix", p));
            }
        }
        if total >= 5 {
            obs.label("a fifth singular matrix at a later step");
            if o.code != Code::SingularMatrix {
                return Err(format!("{:?} after {} singular matrices", o.code, total));
            }
            if o.ts.len() != s.points || q.starts.len() != i + 1 || s.calls.iter().any(|x| !x.0) {
                return Err("something is attempted or recorded after the fifth singular matrix".into());
            }
            return Ok(());
        }
        let sizes: Vec<f64> = q.starts.iter().map(|s| first(s, sys.t1, dir)).collect();
        let hit = |x: &f64| m.iter().any(|m| matches!(m, Mode::Real(l) if *l != 0.0 && same(*x, U1 / l, 1)));
        let again = sizes[i + 1..].iter().any(hit);
        if o.code != Code::Success && !(again && o.code == Code::SingularMatrix) {
            return Err(format!("{:?} after {} singular matrices", o.code, total));
        }
        let got = seen(s).unwrap_or(0.0);
        if !((got - 0.5 * h).abs() <= 1e-9 * h.abs() + 4.0 * f64::EPSILON * scale) {
            return Err(format!("after a singular matrix for size {:e} the first attempt has size {:e}", h, got));
        }
        fresh(&q, i, sys.t0)?;
        if again {
            obs.label("the same size again");
            return Ok(());
        }
        mesh_ok(o, &o.us[0].clone(), sys.t0, sys.t1)?;
        from = i + 1;
        r = q;
    }
    Ok(())
}

fn case(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let sys = Sys::new(&c.prob);
    let mut a = Abs::new(&c.opt, &sys);
    let dir = (sys.t1 - sys.t0).signum();
    let mut c = c.clone();
    let scale = sys.t0.abs().max(sys.t1.abs());
    let span = (sys.t1 - sys.t0).abs();
    if c.start {
        // a size that makes the complex matrix exactly singular
        let h = a.dtstart.unwrap_or(1e-6).min(0.9 * span).max(1e-9 * scale);
        a.dtstart = Some(BETA * 2f64.powi((h / BETA).log2().floor() as i32));
    }
    let probe = first(&trace(&sys, &a, c.lead, resting(&c), 1).starts[0], sys.t1, dir);
    let b = (BETA / probe).abs();
    if !c.start || b != 2f64.powf(b.log2().round()) {
        for z in c.complex.iter_mut() {
            *z = false;
        }
    }
    let plain = trace(&sys, &a, c.lead, resting(&c), usize::MAX);
    if plain.out.code != Code::Success {
        obs.label(&format!("plain run ends with {:?}", plain.out.code));
        return Ok(());
    }
    // the step at which the matrix is to be singular
    let sizes: Vec<f64> = plain.starts.iter().map(|s| first(s, sys.t1, dir)).collect();
    let taken: Vec<f64> = plain.out.ts.windows(2).map(|w| w[1] - w[0]).collect();
    let fine = |k: usize| {
        let h = sizes[k];
        let mut used = sizes[..k].iter().chain(&taken[..k]);
        h.abs() > 1e-9 * scale && !used.any(|x| same(*x, h, c.complex.len()))
    };
    let picks: Vec<usize> =
        if c.start { vec![0] } else { (0..sizes.len()).filter(|k| fine(*k)).collect() };
    if picks.is_empty() || (c.start && !fine(0)) {
        return Ok(());
    }
    let k = picks[((picks.len() as f64 * c.at) as usize).min(picks.len() - 1)];
    let h = sizes[k];
    let count = c.complex.len();
    obs.label(&format!("{} singular matrices", count));
    obs.label(match (k, k + 1 == sizes.len()) {
        (0, _) => "at the first step",
        (_, true) => "at the last step",
        _ => "on the way",
    });
    if c.complex.iter().any(|z| *z) {
        obs.label("complex matrix");
    }

    // Eigenvalues that differ in rounding still count as the method's.
    let halved = |m: Vec<Mode>| {
        let r = trace(&sys, &a, c.lead, m, k + 1);
        r.starts.len() > k && seen(&r.starts[k]).map_or(true, |x| (x / h).abs() < 0.75)
    };
    let mut shift = (0, [0, 0]);
    for kind in [false, true] {
        let j = match c.complex.iter().position(|z| *z == kind) {
            Some(j) => j,
            None => continue,
        };
        let one = |s: &Shift| {
            let mut m = resting(&c);
            m[j] = mode(kind, c.skew, h, *s);
            halved(m)
        };
        let r = [0, 1, -1, 2, -2];
        let found = if kind {
            r.iter()
                .flat_map(|x| r.iter().map(move |y| (0, [*x, *y])))
                .find(one)
        } else {
            r.iter().map(|x| (*x, [0, 0])).find(one)
        };
        match found {
            Some(s) if kind => shift.1 = s.1,
            Some(s) => shift.0 = s.0,
            None => {
                return Err(format!(
                    "step {} of size {:e} is attempted with a singular {} matrix",
                    k,
                    h,
                    if kind { "complex" } else { "real" }
                ))
            }
        }
    }
    if shift != (0, [0, 0]) {
        obs.label("eigenvalues differ in rounding");
    }

    obs.nontrivial = true;
    let r = trace(&sys, &a, c.lead, modes(&c, h, shift), usize::MAX);
    let o = &r.out;
    if r.starts.len() <= k {
        return Err(format!("run ends with {:?} before the singular matrix", o.code));
    }
    let s = &r.starts[k];
    for i in 0..s.points {
        if plain.out.ts[i] != o.ts[i] || plain.out.us[i] != o.us[i] {
            return Err(format!("point {} depends on a later singular matrix", i));
        }
    }
    if o.us.iter().any(|u| u[sys.n..].iter().any(|v| *v != 0.0)) {
        return Err("a component at rest has moved".into());
    }
    if o.st.jacobian_evals as u64 != o.nj - o.nj0 {
        return Err(format!("{} Jacobian evaluations counted as {}", o.nj - o.nj0, o.st.jacobian_evals));
    }
    if count >= 5 {
        if o.code != Code::SingularMatrix {
            return Err(format!("{:?} after {} singular matrices in a row", o.code, count));
        }
        if o.ts.len() != s.points || r.starts.len() != k + 1 {
            return Err("a point is recorded after the fifth singular matrix".into());
        }
        if s.calls.iter().any(|x| !x.0) {
            return Err("a step is attempted with a singular matrix".into());
        }
        return Ok(());
    }
    // a later step may happen to have one of the sizes again
    let again = r.starts[k + 1..].iter().any(|s| same(first(s, sys.t1, dir), h, count));
    if again {
        obs.label("the same size again");
    }
    if o.code != Code::Success && !(again && o.code == Code::SingularMatrix) {
        return Err(format!("{:?} after {} singular matrices", o.code, count));
    }
    let want = h * 0.5f64.powi(count as i32);
    let got = seen(s).unwrap_or(0.0);
    let tol = 1e-9 * want.abs() + 4.0 * f64::EPSILON * scale;
    if !((got - want).abs() <= tol) {
        return Err(format!(
            "after {} singular matrices for size {:e} the first attempt has size {:e}",
            count, h, got
        ));
    }
    // the attempt uses the Jacobian at the start of the step
    fresh(&r, k, sys.t0)?;
    mesh_ok(o, &[&sys.u0[..], &vec![0.0; o.us[0].len() - sys.n]].concat(), sys.t0, sys.t1)?;
    if o.ts.len() == s.points {
        return Ok(());
    }
    let size = (o.ts[s.points] - o.ts[s.points - 1]).abs();
    if !(size <= want.abs() + tol) {
        return Err(format!("step of size {:e} after the size was reduced to {:e}", size, want));
    }
    if r.starts.len() > k + 1 {
        let next = &r.starts[k + 1];
        // the last step may be stretched
        let last = (sys.t1 - next.t - next.dt).abs() <= tol;
        let most = if last { size / a.quot1.unwrap_or(1.0) } else { size };
        if !(next.dt.abs() <= most * (1.0 + 1e-9) + tol) {
            return Err(format!(
                "size grows from {:e} to {:e} right after a singular matrix",
                size, next.dt
            ));
        }
    }
    // the following steps are steps of the method
    let ctx = Ctx::new(&sys);
    let fnewt = a.radau_fnewt();
    let mut far = vec![];
    let widen = (sys.n as f64 / o.us[0].len() as f64).sqrt();
    for i in s.points..o.ts.len() {
        let (u0, u1) = (&o.us[i - 1][..sys.n], &o.us[i][..sys.n]);
        let d = match ra_check(&ctx, &a, o.ts[i - 1], u0, o.ts[i], u1) {
            Some(d) => d,
            None => continue,
        };
        obs.count("steps compared", 1);
        let dev = d.dev - d.slack;
        let limit = if sys.constant_jacobian() { 1e-5 } else { f64::INFINITY };
        let text = format!("step {} (t={:e} to {:e}) deviates from the method by {:.3e} tolerances", i, o.ts[i - 1], o.ts[i], d.dev);
        if !(dev <= limit) {
            return Err(text);
        }
        if !(dev / fnewt <= 100.0) {
            far.push(text);
        }
        if let Some(e) = d.err {
            let again = i == s.points
                || i == 1
                || o.attempts(Which::Ra, i) > 1
                || same(first(&r.starts[i - 1], sys.t1, dir), h, count);
            let e = widen * if again { e.0.min(e.1) } else { e.0 };
            if !(e <= 1.0 + d.slack + 10.0 * fnewt) {
                return Err(format!("accepted step {} (t={:e} to {:e}) has error estimate {}", i, o.ts[i - 1], o.ts[i], e));
            }
        }
    }
    obs.count("far steps", far.len() as u64);
    if far.len() as f64 > 12.0 + 0.15 * o.ts.len() as f64 {
        return Err(format!("{} of {} steps deviate: {}", far.len(), o.ts.len() - s.points, far[0]));
    }
    if again || c.complex[0] {
        return Ok(());
    }
    more(&c, &sys, &a, modes(&c, h, shift), r, k, obs)
}

pub fn c28(env: &Env) -> i32 {
    let strat = || {
        let p = prob(&ProbCfg {
            kinds: vec![
                (4, Kind::Lin),
                (3, Kind::Diag),
                (1, Kind::Quad),
                (3, Kind::Net),
                (1, Kind::Vdp),
                (1, Kind::Pendulum),
                (1, Kind::Brussel),
            ],
            nmax: 6,
            rate: (-0.5, 5.0),
            large: WIDTH / 2,
            ..Default::default()
        });
        let o = opt_ra(&OptCfg { rtol: (-7.0, -2.0), ..Default::default() });
        let k = prop_oneof![3 => Just(1usize), 3 => 1usize..=4, 1 => 4usize..=6];
        let z = k.prop_flat_map(|k| {
            prop_oneof![
                2 => Just(vec![false; k]),
                1 => Just(vec![true; k]),
                1 => prop::collection::vec(any::<bool>(), k)
            ]
        });
        let later = prop_oneof![
            2 => Just(vec![]),
            1 => prop::collection::vec(0.0..1.0f64, 1..=5)
        ];
        (p, o, z, any::<bool>(), any::<bool>(), 0.0..1.0f64, -3i32..=3, later)
            .prop_map(|(prob, mut opt, complex, lead, start, at, skew, later)| {
                opt.jac = true;
                if !matches!(prob.kind, Kind::Lin | Kind::Quad) {
                    opt.ext_col = None;
                }
                Case { prob, opt, complex, lead, start, at, skew, later }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C28",
            rule: "a run in which the matrices of a chosen step are singular",
            quick: 60000,
            thorough: 800000,
            strategy: &strat,
            case: &case,
            assumptions: &["the eigenvalues of the method are known up to two units in the last place"],
        },
    )
}
