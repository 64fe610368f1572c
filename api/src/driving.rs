//! C08, C09: equivalence of the ways to drive an integration; statistics.
use crate::drive::*;
use crate::mesh::{all_kinds, either};
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::OdeIntegrator;
use cyphus_diffeq::radau::Radau5;
use engine::runner::{Def, Env, Obs};
use engine::spec::*;
use engine::sys::{Prob, Sys};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Step(usize),
    /// consuming iterator, so many items
    Take(usize),
    Integrate,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    pub alg: Which,
    pub prob: Prob,
    pub opt: Opt,
    pub hostile: Hostile,
    pub callback: bool,
    /// factor of the right-hand side
    #[serde(default = "one_f64")]
    pub gain: f64,
    /// singular matrices the implicit method meets at the first step
    #[serde(default)]
    pub singular: usize,
}

fn one_f64() -> f64 {
    1.0
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Drive {
    pub a: One,
    pub b: One,
    /// operations on the first (false) or second (true) integrator
    pub ops: Vec<(bool, Op)>,
    pub borrow: bool,
}

fn noop<'a, A: AlgX>(_: &mut OdeIntegrator<'a, Ctx, A>) {}

fn make<'a, A: AlgX>(c: &One) -> OdeIntegrator<'a, Ctx, A> {
    let sys = Sys::new(&c.prob);
    let mut ctx = Ctx::new(&sys);
    ctx.hostile = c.hostile.clone();
    ctx.gain = c.gain;
    let a = Abs::new(&c.opt, &sys);
    let mut u0 = sys.u0.clone();
    if c.singular > 0 && a.jac {
        let h = builder::<A>(Ctx::new(&sys), &sys.u0, (sys.t0, sys.t1), &a).build().dt;
        ctx.extra = (0..c.singular)
            .map(|k| Mode::Real(crate::singular::U1 / (h * 0.5f64.powi(k as i32))))
            .collect();
        u0.resize(sys.n + c.singular, 0.0);
    }
    let b = builder::<A>(ctx, &u0, (sys.t0, sys.t1), &a);
    if c.callback {
        b.callback(&noop::<A>).build()
    } else {
        b.build()
    }
}

/// What single-stepping did: per call, whether a point was recorded and whether it went on.
struct Script {
    out: Out,
    events: Vec<(bool, bool)>,
}

fn script<A: AlgX>(c: &One) -> Script {
    let mut it = make::<A>(c);
    let mut events = vec![];
    loop {
        let before = it.sol.ts.len();
        let more = it.step().is_some();
        events.push((it.sol.ts.len() > before, more));
        if !more {
            break;
        }
    }
    Script { out: snapshot(&it, 0, 0), events }
}

/// One integrator together with the position the model expects it to be at.
struct Live<'a, A: AlgX> {
    it: Option<OdeIntegrator<'a, Ctx, A>>,
    sc: Script,
    calls: usize,
    points: usize,
}

impl<'a, A: AlgX> Live<'a, A> {
    fn new(it: OdeIntegrator<'a, Ctx, A>, c: &One) -> Self {
        Live { it: Some(it), sc: script::<A>(c), calls: 0, points: 1 }
    }
    fn finished(&self) -> bool {
        self.calls >= self.sc.events.len()
    }
    /// model of one step: index of the recorded point, and whether it goes on
    fn advance(&mut self) -> (Option<usize>, bool) {
        if self.finished() {
            return (None, false);
        }
        let (rec, more) = self.sc.events[self.calls];
        self.calls += 1;
        if rec {
            self.points += 1;
            (Some(self.points - 1), more)
        } else {
            (None, more)
        }
    }
    fn yielded(&self, y: Option<(f64, ndarray::Array1<f64>)>, want: Option<usize>) -> Result<(), String> {
        match (y, want) {
            (None, None) => Ok(()),
            (Some((t, u)), Some(k)) => {
                if t != self.sc.out.ts[k] || u.to_vec() != self.sc.out.us[k] {
                    Err(format!("iterator yields a point other than number {}", k))
                } else {
                    Ok(())
                }
            }
            (None, Some(k)) => {
                Err(format!("iterator ends before point {} of {}", k, self.sc.out.ts.len() - 1))
            }
            (Some((t, _)), None) => Err(format!("iterator yields t={:e} after the last point", t)),
        }
    }
    fn apply(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Step(k) => {
                for _ in 0..*k {
                    let (_, more) = self.advance();
                    let r = self.it.as_mut().unwrap().step();
                    if r.is_some() != more {
                        return Err(format!("step() gives {:?} where the run goes on: {}", r, more));
                    }
                }
            }
            Op::Take(k) => {
                let mut i = self.it.take().unwrap().into_iter();
                for _ in 0..*k {
                    let (want, _) = self.advance();
                    let y = i.next();
                    self.yielded(y, want)?;
                }
                self.it = Some(i.integrator);
            }
            Op::Integrate => {
                while !self.finished() {
                    self.advance();
                }
                self.it.as_mut().unwrap().integrate();
            }
        }
        Ok(())
    }
    /// compare with the single-step run
    fn agree(&self) -> Result<(), String> {
        agree(self.it.as_ref().unwrap(), &self.sc, self.points, self.finished())
    }
}

fn agree<A: AlgX>(
    it: &OdeIntegrator<Ctx, A>,
    sc: &Script,
    points: usize,
    finished: bool,
) -> Result<(), String> {
    let o = snapshot(it, 0, 0);
    let want = if finished { sc.out.code } else { Code::Continue };
    if o.code != want {
        return Err(format!("return code {:?} instead of {:?}", o.code, want));
    }
    if o.ts.len() != points || o.us.len() != points {
        return Err(format!("{} times and {} states instead of {}", o.ts.len(), o.us.len(), points));
    }
    if o.ts[..] != sc.out.ts[..points] || o.us[..] != sc.out.us[..points] {
        return Err("recorded points differ from a run by single steps".into());
    }
    let (t, u) = (sc.out.ts[points - 1], &sc.out.us[points - 1]);
    if it.t != t || it.u.to_vec() != *u {
        return Err("current time or state is not the last recorded one".into());
    }
    Ok(())
}

fn borrowing<A: AlgX>(c: &One, obs: &mut Obs) -> Result<(), String> {
    let model = Live::<A>::new(make(c), c);
    let mut it = make::<A>(c);
    let mut i = (&mut it).into_iter();
    let m = model.sc.out.ts.len();
    for k in 1..m {
        let y = i.next();
        model.yielded(y, Some(k))?;
    }
    for _ in 0..3 {
        let y = i.next();
        model.yielded(y, None)?;
    }
    agree(i.integrator, &model.sc, m, true)?;
    // the solution's own iterators
    let sol = &mut i.integrator.sol;
    let mut k = 0;
    for (t, u) in &mut *sol {
        if k >= m || *t != model.sc.out.ts[k] || u.to_vec() != model.sc.out.us[k] {
            return Err(format!("iterating over the borrowed solution: item {} is wrong", k));
        }
        k += 1;
    }
    if k != m {
        return Err(format!("iterating over the borrowed solution gives {} of {} points", k, m));
    }
    let owned = std::mem::replace(sol, cyphus_diffeq::ode::OdeSolution::new());
    k = 0;
    for (t, u) in owned {
        if k >= m || t != model.sc.out.ts[k] || u.to_vec() != model.sc.out.us[k] {
            return Err(format!("iterating over the solution: item {} is wrong", k));
        }
        k += 1;
    }
    if k != m {
        return Err(format!("iterating over the solution gives {} of {} points", k, m));
    }
    obs.label("borrowing iterator");
    Ok(())
}

fn pair<A: AlgX, B: AlgX>(c: &Drive, obs: &mut Obs) -> Result<(), String> {
    // both exist before either is driven
    let (ia, ib) = (make::<A>(&c.a), make::<B>(&c.b));
    let mut a = Live::new(ia, &c.a);
    let mut b = Live::new(ib, &c.b);
    if c.a.gain != c.b.gain {
        obs.label("same start, other right-hand side");
    }
    obs.label(&format!("{:?} ends with {:?}", c.a.alg, a.sc.out.code));
    let mut after = 0;
    for (second, op) in &c.ops {
        if *second {
            b.apply(op)?;
            b.agree()?;
        } else {
            if a.finished() {
                after += 1;
            }
            a.apply(op)?;
            a.agree()?;
        }
    }
    a.apply(&Op::Integrate)?;
    a.agree()?;
    for op in [Op::Step(2), Op::Take(2), Op::Integrate] {
        a.apply(&op)?;
        a.agree()?;
        b.agree()?;
    }
    if after > 0 {
        obs.label("driven on after its end");
    }
    if c.ops.iter().any(|o| o.0) && c.ops.iter().any(|o| !o.0) {
        obs.label("interleaved");
    }
    obs.nontrivial = a.points > 3;
    obs.long(a.points as usize);
    if c.borrow {
        borrowing::<A>(&c.a, obs)?;
    }
    Ok(())
}

fn c08_case(c: &Drive, obs: &mut Obs) -> Result<(), String> {
    match (c.a.alg, c.b.alg) {
        (Which::Dp, Which::Dp) => pair::<DormandPrince5, DormandPrince5>(c, obs),
        (Which::Dp, Which::Ra) => pair::<DormandPrince5, Radau5>(c, obs),
        (Which::Ra, Which::Dp) => pair::<Radau5, DormandPrince5>(c, obs),
        (Which::Ra, Which::Ra) => pair::<Radau5, Radau5>(c, obs),
    }
}

fn one() -> BoxedStrategy<One> {
    let hostile = prop_oneof![
        5 => Just(Hostile::default()),
        1 => (1u8..=14, 0i32..=100, -100i32..=100).prop_map(|(kind, s, a)| Hostile {
            kind, s0: s as f64 / 100.0, a: a as f64 / 100.0 }),
    ];
    (
        either(
            ProbCfg { kinds: all_kinds(), span: (0.1, 4.0), nmax: 5, ..Default::default() },
            OptCfg { rtol: (-6.0, -2.0), ..Default::default() },
        ),
        hostile,
        prop::option::weighted(0.25, 1usize..=20),
        prop::bool::weighted(0.2),
        prop_oneof![9 => Just(0usize), 1 => 1usize..=5],
        // few iterations, which run out
        prop::option::weighted(0.1, 1usize..=3),
    )
        .prop_map(|(c, hostile, ms, callback, singular, few)| {
            let mut opt = c.opt;
            opt.max_newt = few.or(opt.max_newt);
            opt.max_steps = ms.or(Some(500));
            One { alg: c.alg, prob: c.prob, opt, hostile, callback, gain: 1.0, singular }
        })
        .boxed()
}

pub fn c08(env: &Env) -> i32 {
    let strat = || {
        let op = prop_oneof![
            3 => (1usize..=30).prop_map(Op::Step),
            3 => (1usize..=30).prop_map(Op::Take),
            1 => Just(Op::Integrate),
        ];
        let gain = prop::option::weighted(0.3, (-100i32..=100).prop_map(|v| v as f64 / 25.0));
        (one(), one(), gain, prop::collection::vec((any::<bool>(), op), 1..8), any::<bool>())
            .prop_map(|(a, b, gain, ops, borrow)| {
                let b = match gain {
                    Some(gain) => One { gain, ..a.clone() },
                    None => b,
                };
                Drive { a, b, ops, borrow }
            })
            .boxed()
    };
    engine::runner::run(
        env,
        &Def {
            id: "C08",
            rule: "the first integration records more than three points",
            quick: 60000,
            thorough: 1200000,
            strategy: &strat,
            case: &c08_case,
            assumptions: &[],
        },
    )
}

/// What the evaluations of one step of the implicit method show.
struct Work {
    /// sizes of the attempts
    sizes: Vec<f64>,
    iterations: usize,
    /// whether the sizes are well above rounding
    clear: bool,
}

fn work(t: f64, calls: &[Call]) -> Work {
    let (c1, c2) = (0.15505102572168222, 0.6449489742783178);
    let f: Vec<f64> = calls.iter().filter(|c| !c.jac).map(|c| c.t - t).collect();
    let mut w = Work { sizes: vec![], iterations: 0, clear: true };
    let mut i = 0;
    while i < f.len() {
        // evaluations at the start belong to derivatives and estimates
        if f[i] == 0.0 {
            i += 1;
            continue;
        }
        if i + 3 > f.len() {
            break;
        }
        let mut s = f[i..i + 3].to_vec();
        s.sort_by(|a, b| a.abs().partial_cmp(&b.abs()).unwrap());
        let h = s[2];
        w.clear &= h.abs() > 1e-9 * t.abs() && h.abs() > 1e-280;
        if !((s[0] / h - c1).abs() < 1e-3 && (s[1] / h - c2).abs() < 1e-3) {
            break;
        }
        if w.sizes.last() != Some(&h) {
            w.sizes.push(h);
        }
        w.iterations += 1;
        i += 3;
    }
    w
}

fn stats<A: AlgX>(c: &One, obs: &mut Obs) -> Result<(), String> {
    let mut it = make::<A>(c);
    it.params.calls = Some(Default::default());
    let (nf0, nj0) = (it.params.nf.get(), it.params.nj.get());
    let n = it.u.len();
    let fd = A::WHICH == Which::Ra && !c.opt.jac;
    let max_newt = it.opts.max_newt_iter;
    // attempts at the first accepted step, calls to step()
    let mut first_attempts = 0;
    let mut calls = 0;
    let mut changes = 1;
    // exact work of the implicit method, as long as it can be told
    let linear = it.params.sys.constant_jacobian() && c.opt.jac && c.hostile.kind == 0 && max_newt > 2;
    let mut exact = max_newt > 0;
    let (mut attempts, mut iterations, mut early) = (0, 0, 0);
    let (mut factor_min, mut factor_max) = (0, 0);
    let mut renewed = false;
    let z = it.stats.clone();
    if z.steps + z.function_evals + z.jacobian_evals + z.decompositions + z.linear_solves + z.accepts + z.rejects != 0 {
        return Err("statistics of a new integrator are not zero".into());
    }
    loop {
        let log = it.params.calls.as_ref().unwrap().borrow().len();
        let (t, dt, prev) = (it.t, it.dt, it.dtprev);
        let ends = (t + dt * 1.0001 - it.tfinal) * it.tdir >= 0.0;
        let more = it.step().is_some();
        calls += 1;
        let s = &it.stats;
        let nf = (it.params.nf.get() - nf0) as usize;
        let nj = (it.params.nj.get() - nj0) as usize;
        let m = it.sol.ts.len() - 1;
        let bad = |what: &str, got: usize, want: usize| {
            Err(format!("after step call {}: {} reported as {}, should be {}", calls, what, got, want))
        };
        if s.accepts != m {
            return bad("accepted steps", s.accepts, m);
        }
        let jf = if fd { (n + 1) * s.jacobian_evals } else { 0 };
        if s.function_evals + jf != nf {
            return bad("function evaluations", s.function_evals, nf.saturating_sub(jf));
        }
        if !fd && s.jacobian_evals != nj {
            return bad("Jacobian evaluations", s.jacobian_evals, nj);
        }
        let cb = if c.callback { calls } else { 0 };
        match A::WHICH {
            Which::Dp => {
                let stages = s.function_evals - cb;
                if stages % 6 != 0 {
                    return Err(format!("{} evaluations are not whole attempts", stages));
                }
                let attempts = stages / 6;
                if m == 1 && first_attempts == 0 {
                    first_attempts = attempts;
                }
                if s.steps != m {
                    return bad("steps", s.steps, m);
                }
                let rejects = if m == 0 { 0 } else { attempts - first_attempts - (m - 1) };
                if s.rejects != rejects {
                    return bad("rejections", s.rejects, rejects);
                }
                if s.jacobian_evals + s.decompositions + s.linear_solves != 0 {
                    return Err("the explicit method reports linear algebra".into());
                }
            }
            Which::Ra => {
                let log = &it.params.calls.as_ref().unwrap().borrow()[log..];
                let w = work(t, log);
                exact &= w.clear;
                let why = code(&it.sol.retcode);
                // an attempt that ends the run before any evaluation
                let void = matches!(why, Code::MaxIters | Code::DtLessThanMin) as usize;
                attempts += w.sizes.len() + void;
                iterations += w.iterations;
                if m == 1 && early == 0 {
                    early = attempts;
                }
                let tries = w.sizes.len() + void;
                // step sizes that differ by rounding may give the same matrices
                let near = |a: f64, b: f64| (a - b).abs() <= 1e-14 * b.abs();
                let same = calls > 1 && near(dt, prev) && !renewed && (!ends || near(it.tfinal - t, dt));
                let sure = same && dt == prev && !ends && c.hostile.kind == 0;
                factor_max += tries - (sure && tries > 0) as usize;
                factor_min += tries - (same && tries > 0) as usize;
                // a new Jacobian at the end of the step: its call, or difference quotients
                renewed = log.iter().rev().take_while(|c| c.t == it.t).count() > 2
                    || log.last().map_or(false, |c| c.jac);
                if exact {
                    if s.steps != attempts {
                        return bad("attempts", s.steps, attempts);
                    }
                    if s.linear_solves != iterations {
                        return bad("linear solves", s.linear_solves, iterations);
                    }
                    if s.decompositions < factor_min || s.decompositions > factor_max {
                        return bad("factorizations", s.decompositions, factor_max);
                    }
                    let void = if m == 0 { 0 } else { void };
                    let failed = if m == 0 { 0 } else { attempts - void - early - (m - 1) };
                    if s.rejects > failed || (linear && s.rejects != failed) {
                        return bad("rejections", s.rejects, failed);
                    }
                    obs.count("steps with exact work", 1);
                }
                if m >= 2 && it.sol.ts.len() > 2 {
                    let k = it.sol.ts.len();
                    let h1 = it.sol.ts[k - 1] - it.sol.ts[k - 2];
                    let h0 = it.sol.ts[k - 2] - it.sol.ts[k - 3];
                    if (h1 - h0).abs() > 1e-6 * h0.abs() && more {
                        changes += 1;
                    }
                }
                if s.steps < s.accepts + s.rejects {
                    return Err(format!("{} attempts but {} accepted and {} rejected", s.steps, s.accepts, s.rejects));
                }
                if s.linear_solves > max_newt * s.steps {
                    return Err(format!("{} linear solves in {} attempts", s.linear_solves, s.steps));
                }
                if s.decompositions > s.steps + 1 {
                    return Err(format!("{} decompositions in {} attempts", s.decompositions, s.steps));
                }
                if m > 0 && s.decompositions < changes {
                    return Err(format!("{} decompositions for {} step sizes", s.decompositions, changes));
                }
                // Newton iterations cost three evaluations, accepted steps but the last one,
                // second error estimates at most one per attempt
                let last = code(&it.sol.retcode) == Code::Success;
                let base = 3 * s.linear_solves + m - last as usize + cb;
                if s.function_evals < base || s.function_evals > base + s.steps + 3 * (s.steps - m) {
                    return Err(format!(
                        "{} evaluations do not fit {} linear solves and {} accepted steps",
                        s.function_evals, s.linear_solves, m
                    ));
                }
            }
        }
        if !more {
            break;
        }
    }
    let s = &it.stats;
    obs.nontrivial = s.accepts > 3;
    obs.long(s.accepts);
    obs.label(&format!("{:?} {}", A::WHICH, if fd { "difference Jacobian" } else { "" }));
    if s.rejects > 0 {
        obs.label("with rejections");
    }
    if A::WHICH == Which::Ra && s.steps > s.accepts + s.rejects {
        obs.label("with Newton failures");
    }
    if c.callback {
        obs.label("with callback");
    }
    obs.label(&format!("ends with {:?}", code(&it.sol.retcode)));
    Ok(())
}

fn c09_case(c: &One, obs: &mut Obs) -> Result<(), String> {
    match c.alg {
        Which::Dp => stats::<DormandPrince5>(c, obs),
        Which::Ra => stats::<Radau5>(c, obs),
    }
}

pub fn c09(env: &Env) -> i32 {
    let strat = || one();
    engine::runner::run(
        env,
        &Def {
            id: "C09",
            rule: "more than three accepted steps",
            quick: 150000,
            thorough: 3000000,
            strategy: &strat,
            case: &c09_case,
            assumptions: &["factorizations are bounded, not observed"],
        },
    )
}
