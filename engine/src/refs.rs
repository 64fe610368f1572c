//! Reference single steps of the two methods, from their published tableaux.
use crate::la;

/// Result of one reference Dormand-Prince step.
pub struct DpStep {
    pub u: Vec<f64>,
    /// embedded difference (fifth minus fourth order solution)
    pub err: Vec<f64>,
    /// all seven stage derivatives
    pub k: Vec<Vec<f64>>,
}

const C: [f64; 7] = [0., 1. / 5., 3. / 10., 4. / 5., 8. / 9., 1., 1.];
const A: [[f64; 6]; 7] = [
    [0.; 6],
    [1. / 5., 0., 0., 0., 0., 0.],
    [3. / 40., 9. / 40., 0., 0., 0., 0.],
    [44. / 45., -56. / 15., 32. / 9., 0., 0., 0.],
    [19372. / 6561., -25360. / 2187., 64448. / 6561., -212. / 729., 0., 0.],
    [9017. / 3168., -355. / 33., 46732. / 5247., 49. / 176., -5103. / 18656., 0.],
    [35. / 384., 0., 500. / 1113., 125. / 192., -2187. / 6784., 11. / 84.],
];
const B4: [f64; 7] = [
    5179. / 57600.,
    0.,
    7571. / 16695.,
    393. / 640.,
    -92097. / 339200.,
    187. / 2100.,
    1. / 40.,
];

/// One Dormand-Prince 5(4) step of size h from (t, u).
pub fn dp_step(f: &dyn Fn(f64, &[f64], &mut [f64]), t: f64, u: &[f64], h: f64) -> DpStep {
    let n = u.len();
    let mut k: Vec<Vec<f64>> = Vec::with_capacity(7);
    let mut y = u.to_vec();
    for s in 0..7 {
        for i in 0..n {
            let mut acc = 0.0;
            for j in 0..s {
                acc += A[s][j] * k[j][i];
            }
            y[i] = u[i] + h * acc;
        }
        let mut d = vec![0.0; n];
        f(t + C[s] * h, &y, &mut d);
        k.push(d);
    }
    let err = (0..n)
        .map(|i| {
            let mut e = 0.0;
            for s in 0..7 {
                let b5 = if s < 6 { A[6][s] } else { 0.0 };
                e += (b5 - B4[s]) * k[s][i];
            }
            h * e
        })
        .collect();
    DpStep { u: y, err, k }
}

/// Continuous weights `b_i(theta)` of the fourth-order Dormand-Prince
/// interpolant: cubic Hermite interpolation plus theta^2 (1 - theta)^2 times a
/// fixed combination of the stages (Hairer, Norsett, Wanner II.6, the quartic
/// variant, which takes the bracketed factors at theta = 1/2).
pub fn dp_weights(th: f64) -> [f64; 7] {
    let t2 = th * th;
    let b = [35. / 384., 0., 500. / 1113., 125. / 192., -2187. / 6784., 11. / 84., 0.];
    let p = t2 * (3.0 - 2.0 * th);
    let q = t2 * (th - 1.0) * (th - 1.0);
    let m = 0.5;
    [
        p * b[0] + th * (th - 1.0) * (th - 1.0)
            - q * 5.0 * (2558722523.0 - 31403016.0 * m) / 11282082432.0,
        0.0,
        p * b[2] + q * 100.0 * (882725551.0 - 15701508.0 * m) / 32700410799.0,
        p * b[3] - q * 25.0 * (443332067.0 - 31403016.0 * m) / 1880347072.0,
        p * b[4] + q * 32805.0 * (23143187.0 - 3489224.0 * m) / 199316789632.0,
        p * b[5] - q * 55.0 * (29972135.0 - 7076736.0 * m) / 822651844.0,
        t2 * (th - 1.0) + q * 10.0 * (7414447.0 - 829305.0 * m) / 29380423.0,
    ]
}

/// Radau IIA collocation points and matrix (three stages).
pub fn radau_tableau() -> ([f64; 3], [[f64; 3]; 3]) {
    let q = 6f64.sqrt();
    (
        [(4.0 - q) / 10.0, (4.0 + q) / 10.0, 1.0],
        [
            [(88.0 - 7.0 * q) / 360.0, (296.0 - 169.0 * q) / 1800.0, (-2.0 + 3.0 * q) / 225.0],
            [(296.0 + 169.0 * q) / 1800.0, (88.0 + 7.0 * q) / 360.0, (-2.0 - 3.0 * q) / 225.0],
            [(16.0 - q) / 36.0, (16.0 + q) / 36.0, 1.0 / 9.0],
        ],
    )
}

pub struct RadauStep {
    /// stage increments z_1, z_2, z_3 (u_new = u + z_3)
    pub z: [Vec<f64>; 3],
    pub iterations: usize,
}

/// Solve the Radau IIA equations of one step by full Newton iteration with the
/// exact Jacobian, starting from `guess` (increments). None if not converged.
pub fn radau_step(
    f: &dyn Fn(f64, &[f64], &mut [f64]),
    jac: &dyn Fn(f64, &[f64], &mut [f64]),
    t: f64,
    u: &[f64],
    h: f64,
    guess: [Vec<f64>; 3],
    w: &[f64],
    tol: f64,
) -> Option<RadauStep> {
    let n = u.len();
    let (c, a) = radau_tableau();
    let m = 3 * n;
    let mut z = guess;
    let mut last = f64::INFINITY;
    for it in 0..25 {
        let mut fs = vec![vec![0.0; n]; 3];
        let mut js = vec![vec![0.0; n * n]; 3];
        for s in 0..3 {
            let y: Vec<f64> = (0..n).map(|i| u[i] + z[s][i]).collect();
            f(t + c[s] * h, &y, &mut fs[s]);
            jac(t + c[s] * h, &y, &mut js[s]);
        }
        let mut mat = vec![0.0; m * m];
        let mut rhs = vec![0.0; m];
        for s in 0..3 {
            for i in 0..n {
                let mut r = -z[s][i];
                for q in 0..3 {
                    r += h * a[s][q] * fs[q][i];
                    for j in 0..n {
                        mat[(s * n + i) * m + q * n + j] = -h * a[s][q] * js[q][i * n + j];
                    }
                }
                rhs[s * n + i] = r;
                mat[(s * n + i) * m + s * n + i] += 1.0;
            }
        }
        la::solve(m, &mut mat, &mut rhs)?;
        let mut nrm = 0.0;
        for s in 0..3 {
            for i in 0..n {
                let d = rhs[s * n + i];
                z[s][i] += d;
                nrm += (d / w[i]) * (d / w[i]);
            }
        }
        nrm = (nrm / m as f64).sqrt();
        if !nrm.is_finite() {
            return None;
        }
        if nrm <= tol || (it > 3 && nrm >= 0.5 * last && nrm < 1e-3 * tol.max(1e-6)) {
            return Some(RadauStep { z, iterations: it + 1 });
        }
        last = nrm;
    }
    None
}

/// Hairer's error estimate of a Radau step: (g0/h I - J)^{-1} (f + e.z/h),
/// with f evaluated at `fu`.
pub fn radau_err(n: usize, jac: &[f64], h: f64, z: &[Vec<f64>; 3], fu: &[f64]) -> Option<Vec<f64>> {
    let q = 6f64.sqrt();
    // real eigenvalue of the inverse Radau IIA matrix
    let c13 = 3f64.cbrt();
    let c19 = 9f64.cbrt();
    let g0 = 3.0 + c19 - c13; // = 3.6378342527444957
    let e = [-(13.0 + 7.0 * q) / 3.0, (-13.0 + 7.0 * q) / 3.0, -1.0 / 3.0];
    let mut m = vec![0.0; n * n];
    let mut b = vec![0.0; n];
    for i in 0..n {
        for j in 0..n {
            m[i * n + j] = -jac[i * n + j];
        }
        m[i * n + i] += g0 / h;
        b[i] = fu[i] + (e[0] * z[0][i] + e[1] * z[1][i] + e[2] * z[2][i]) / h;
    }
    la::solve(n, &mut m, &mut b)?;
    Some(b)
}
