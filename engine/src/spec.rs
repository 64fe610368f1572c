//! Generated option sets and proptest strategies for problems and options.
use crate::sys::{Kind, Prob};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Solver options as generated; `None` leaves the default in place.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Opt {
    /// log10 relative tolerance
    pub rtol: f64,
    /// log10 of abstol / (reltol * state magnitude)
    pub aratio: f64,
    /// log10 of initial step / interval length
    pub dtstart: Option<f64>,
    /// log10 of maximum step / interval length
    pub dtmax: Option<f64>,
    pub safe: Option<f64>,
    /// smallest ratio of consecutive steps (0..1)
    pub shrink: Option<f64>,
    /// largest ratio of consecutive steps (> 1)
    pub grow: Option<f64>,
    pub beta: Option<f64>,
    pub quot1: Option<f64>,
    pub quot2: Option<f64>,
    /// log10
    pub fnewt: Option<f64>,
    pub max_newt: Option<usize>,
    pub ext_col: Option<bool>,
    pub modern: Option<bool>,
    pub max_steps: Option<usize>,
    /// supply the analytic Jacobian
    pub jac: bool,
    /// absolute tolerance only
    #[serde(default)]
    pub norel: bool,
    /// settings without influence on the run, one bit each
    #[serde(default)]
    pub idle: u16,
}

fn idle() -> impl Strategy<Value = u16> {
    prop_oneof![4 => Just(0u16), 1 => any::<u16>()]
}

pub fn q(x: f64, d: f64) -> f64 {
    (x * d).round() / d
}

fn coef() -> impl Strategy<Value = Vec<f64>> {
    let any = || (-100i32..=100).prop_map(|v| v as f64 / 100.0);
    let some = || prop_oneof![Just(0.0), any()];
    let few = prop_oneof![Just(0.0), Just(-1.0), Just(1.0), Just(0.5)];
    prop_oneof![
        8 => prop::collection::vec(any(), 40),
        // vanishing, equal and decoupled components
        2 => prop::collection::vec(some(), 40),
        1 => prop::collection::vec(few, 40),
    ]
}

fn t0() -> impl Strategy<Value = f64> {
    prop_oneof![
        9 => Just(0.0),
        6 => (-40i32..=40).prop_map(|v| v as f64 / 4.0),
        3 => (-100i32..=100).prop_map(|v| v as f64),
        1 => (-100i32..=100).prop_map(|v| v as f64 * 100.0),
    ]
}

#[derive(Clone)]
pub struct ProbCfg {
    pub kinds: Vec<(u32, Kind)>,
    pub nmax: usize,
    pub rate: (f64, f64),
    pub span: (f64, f64),
    pub amp: (f64, f64),
    pub kappa: (f64, f64),
    /// larger systems and extreme magnitudes now and then
    pub wide: bool,
    /// the largest systems
    pub large: usize,
}

impl Default for ProbCfg {
    fn default() -> Self {
        ProbCfg {
            kinds: vec![(3, Kind::Lin), (3, Kind::Diag), (1, Kind::Quad), (2, Kind::Net)],
            nmax: 8,
            rate: (-0.5, 1.0),
            span: (0.5, 8.0),
            amp: (-4.0, 4.0),
            kappa: (-3.0, 3.0),
            wide: true,
            large: 40,
        }
    }
}

/// uniform on a grid of 0.01, zero-biased for shrinking
pub fn grid(r: (f64, f64)) -> impl Strategy<Value = f64> {
    let lo = (r.0 * 100.0).round() as i32;
    let hi = (r.1 * 100.0).round() as i32;
    (lo..=hi).prop_map(|v| v as f64 / 100.0)
}

pub fn prob(cfg: &ProbCfg) -> BoxedStrategy<Prob> {
    let kinds = prop::strategy::Union::new_weighted(
        cfg.kinds.iter().map(|(w, k)| (*w, Just(*k).boxed())).collect(),
    );
    let nm = cfg.nmax;
    let top = if cfg.wide { nm.max(12) } else { nm };
    let large = if cfg.wide { cfg.large.max(top) } else { top };
    let n = prop_oneof![
        12 => Just(1usize),
        24 => Just(2usize),
        60 => 1usize..=nm,
        6 => nm..=top,
        1 => top..=large,
    ];
    let scale = |r: (f64, f64), w: (f64, f64)| {
        let w = if cfg.wide { (w.0.min(r.0), w.1.max(r.1)) } else { r };
        prop_oneof![2 => Just(0.0), 4 => grid(r), 1 => grid(w)]
    };
    (
        kinds,
        n,
        coef(),
        grid(cfg.rate),
        scale(cfg.amp, (-14.0, 8.0)),
        scale(cfg.kappa, (-6.0, 6.0)),
        grid(cfg.span),
        t0(),
        any::<bool>(),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(kind, n, c, rate, amp, kappa, span, t0, back, smooth)| Prob {
            kind,
            n,
            c,
            rate,
            amp,
            // a first step of 1e-6 has to be able to move the start time
            kappa: if f64::abs(t0) > 100.0 { f64::max(kappa, -3.0) } else { kappa },
            span,
            t0,
            back,
            smooth,
        })
        .boxed()
}

/// Populations that a loose tolerance drives below zero may explode.
pub fn calm(mut prob: Prob, opt: &Opt) -> Prob {
    if prob.kind == Kind::Lotka && opt.rtol > -3.5 {
        prob.kind = Kind::Pendulum;
    }
    // times far from zero are too coarse for fast transients and tight tolerances
    let fast = if prob.smooth { 0.0 } else { prob.rate.max(0.0) };
    let noise = f64::EPSILON * prob.t0.abs() * 10f64.powf(fast);
    if prob.t0.abs() > 100.0 && 100.0 * noise > 10f64.powf(opt.rtol + opt.aratio.min(0.0)) {
        prob.t0 /= 100.0;
    }
    prob
}

/// Difference quotients do not follow states far from unit magnitude.
pub fn fit(mut prob: Prob, opt: &Opt) -> Prob {
    if !opt.jac {
        prob.amp = prob.amp.max(-4.0).min(4.0);
    }
    calm(prob, opt)
}

#[derive(Clone)]
pub struct OptCfg {
    pub rtol: (f64, f64),
    pub aratio: (f64, f64),
    /// probability that a controller option departs from its default
    pub p: f64,
    pub dtmax: (f64, f64),
    pub dtstart: (f64, f64),
    /// probability of so few Newton iterations that they run out
    pub few: f64,
}

impl Default for OptCfg {
    fn default() -> Self {
        OptCfg {
            rtol: (-9.0, -3.0),
            aratio: (-3.0, 0.5),
            p: 0.3,
            dtmax: (-2.3, 0.0),
            dtstart: (-6.0, 0.3),
            few: 0.0,
        }
    }
}

fn maybe<S: Strategy + 'static>(p: f64, s: S) -> BoxedStrategy<Option<S::Value>>
where
    S::Value: Clone + 'static,
{
    if p <= 0.0 {
        return Just(None).boxed();
    }
    prop::option::weighted(p, s).boxed()
}

/// ratio of the tolerances, now and then with hardly any absolute part
fn absolute(r: (f64, f64)) -> impl Strategy<Value = f64> {
    prop_oneof![20 => grid(r), 1 => grid((f64::min(-8.0, r.0), r.1))]
}

/// maximum step, now and then so small that the run takes thousands of steps
fn maximum(p: f64, r: (f64, f64)) -> BoxedStrategy<Option<f64>> {
    maybe(p, prop_oneof![30 => grid(r), 1 => grid((-3.6, -3.05))])
}

/// Options valid for the explicit method.
pub fn opt_dp(c: &OptCfg) -> BoxedStrategy<Opt> {
    let p = c.p;
    (
        grid(c.rtol),
        absolute(c.aratio),
        maybe(0.7, grid(c.dtstart)),
        maximum(p * 0.6, c.dtmax),
        maybe(p, grid((0.6, 0.95))),
        maybe(p, grid((0.1, 0.6))),
        maybe(p, grid((1.5, 10.0))),
        maybe(p, grid((0.0, 0.08))),
        prop::bool::weighted(0.03),
        idle(),
    )
        .prop_map(|(rtol, aratio, dtstart, dtmax, safe, shrink, grow, beta, norel, idle)| Opt {
            rtol,
            aratio,
            dtstart,
            dtmax,
            safe,
            shrink,
            grow,
            beta,
            norel,
            idle,
            ..Opt::default()
        })
        .boxed()
}

/// Options valid for the implicit method.
pub fn opt_ra(c: &OptCfg) -> BoxedStrategy<Opt> {
    let p = c.p;
    (
        (
            grid(c.rtol),
            absolute(c.aratio),
            maybe(0.7, grid(c.dtstart)),
            maximum(p * 0.6, c.dtmax),
            maybe(p, grid((0.6, 0.95))),
            maybe(p, grid((0.1, 0.6))),
            maybe(p, grid((2.5, 8.0))),
        ),
        (
            maybe(p, grid((0.7, 1.0))),
            maybe(p, grid((1.0, 2.0))),
            maybe(p, grid((-5.0, -1.6))),
            (maybe(c.few, 1usize..=4), maybe(p, 5usize..=12)).prop_map(|(few, n)| few.or(n)),
            maybe(p, any::<bool>()),
            maybe(p, any::<bool>()),
            prop::bool::weighted(0.6),
            idle(),
        ),
    )
        .prop_map(
            |(
                (rtol, aratio, dtstart, dtmax, safe, shrink, grow),
                (quot1, quot2, fnewt, max_newt, ext_col, modern, jac, idle),
            )| Opt {
                rtol,
                aratio,
                dtstart,
                dtmax,
                safe,
                shrink,
                grow,
                quot1,
                quot2,
                fnewt,
                max_newt,
                ext_col,
                modern,
                jac,
                idle,
                ..Opt::default()
            },
        )
        .boxed()
}

/// Some of the controller settings taken far from the usual ones.
pub fn wild(o: BoxedStrategy<Opt>) -> BoxedStrategy<Opt> {
    let some = prop::option::weighted(
        0.15,
        (
            maybe(0.5, grid((0.2, 0.99))),
            maybe(0.5, grid((0.02, 0.95))),
            maybe(0.5, prop_oneof![2 => grid((1.05, 30.0)), 1 => grid((1.5, 4.0)).prop_map(|x| 10f64.powf(x))]),
            maybe(0.5, grid((0.0, 0.15))),
            maybe(0.5, grid((0.2, 1.0))),
            maybe(0.5, grid((1.0, 6.0))),
            maybe(0.5, prop_oneof![3 => grid((-6.5, -0.05)), 1 => grid((-13.0, -6.0))]),
        ),
    );
    (o, some)
        .prop_map(|(mut o, w)| {
            if let Some((safe, shrink, grow, beta, quot1, quot2, fnewt)) = w {
                o.safe = safe.or(o.safe);
                o.shrink = shrink.or(o.shrink);
                o.grow = grow.or(o.grow);
                o.beta = beta.or(o.beta);
                o.quot1 = quot1.or(o.quot1);
                o.quot2 = quot2.or(o.quot2);
                o.fnewt = fnewt.or(o.fnewt);
            }
            o
        })
        .boxed()
}
