//! Singular values by Golub-Kahan bidiagonalisation and implicit-shift QR (LINPACK dsvdc), full m-by-m U.
use crate::*;

/// A = U * diag(s) * V' for m >= n >= 1; s is sorted descending
pub fn svd_tall(m: usize, n: usize, input: &Vec<f64>) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    assert!(m >= n);
    let mut a = input.clone();
    let len = if m < n { m } else { n };
    let mut s = unspecified(len);
    let mut u = unspecified(m * m);
    let mut v = unspecified(n * n);
    let mut e = unspecified(n);
    let mut work = unspecified(m);

    let nct = if m - 1 < n { m - 1 } else { n };
    let small = if (n as isize) - 2 < m as isize { (n as isize) - 2 } else { m as isize };
    let nrt = (if small > 0 { small } else { 0 }) as usize;
    let steps = if nct > nrt { nct } else { nrt };

    for k in 0..steps {
        if k < nct {
            // column reflection; its signed length goes to s[k]
            s[k] = 0.0;
            for i in k..m {
                s[k] = hyp(s[k], a[i * n + k]);
            }
            if s[k] != 0.0 {
                if a[k * n + k] < 0.0 {
                    s[k] = -s[k];
                }
                for i in k..m {
                    a[i * n + k] /= s[k];
                }
                a[k * n + k] += 1.0;
            }
            s[k] = -s[k];
        }
        for j in k + 1..n {
            if k < nct && s[k] != 0.0 {
                let mut dot = 0.0;
                for i in k..m {
                    dot += a[i * n + k] * a[i * n + j];
                }
                let w = -dot / a[k * n + k];
                for i in k..m {
                    a[i * n + j] += w * a[i * n + k];
                }
            }
            e[j] = a[k * n + j];
        }
        if k < nct {
            for i in k..m {
                u[i * m + k] = a[i * n + k];
            }
        }
        if k < nrt {
            // row reflection; its signed length goes to e[k]
            e[k] = 0.0;
            for i in k + 1..n {
                e[k] = hyp(e[k], e[i]);
            }
            if e[k] != 0.0 {
                if e[k + 1] < 0.0 {
                    e[k] = -e[k];
                }
                for i in k + 1..n {
                    e[i] /= e[k];
                }
                e[k + 1] += 1.0;
            }
            e[k] = -e[k];
            if k + 1 < m && e[k] != 0.0 {
                for i in k + 1..m {
                    work[i] = 0.0;
                }
                for j in k + 1..n {
                    for i in k + 1..m {
                        work[i] += e[j] * a[i * n + j];
                    }
                }
                for j in k + 1..n {
                    let w = -e[j] / e[k + 1];
                    for i in k + 1..m {
                        a[i * n + j] += w * work[i];
                    }
                }
            }
            for i in k + 1..n {
                v[i * n + k] = e[i];
            }
        }
    }

    // the remaining entries of the bidiagonal matrix
    let mut p = if n < m + 1 { n } else { m + 1 };
    if nct < n {
        s[nct] = a[nct * n + nct];
    }
    if m < p {
        s[p - 1] = 0.0;
    }
    if nrt + 1 < p {
        e[nrt] = a[nrt * n + (p - 1)];
    }
    e[p - 1] = 0.0;

    // accumulate U
    for j in nct..m {
        for i in 0..m {
            u[i * m + j] = 0.0;
        }
        u[j * m + j] = 1.0;
    }
    for k in (0..nct).rev() {
        if s[k] != 0.0 {
            for j in k + 1..m {
                let mut dot = 0.0;
                for i in k..m {
                    dot += u[i * m + k] * u[i * m + j];
                }
                let w = -dot / u[k * m + k];
                for i in k..m {
                    u[i * m + j] += w * u[i * m + k];
                }
            }
            for i in k..m {
                u[i * m + k] = -u[i * m + k];
            }
            u[k * m + k] += 1.0;
            for i in 0..k {
                u[i * m + k] = 0.0;
            }
        } else {
            for i in 0..m {
                u[i * m + k] = 0.0;
            }
            u[k * m + k] = 1.0;
        }
    }

    // accumulate V
    for k in (0..n).rev() {
        if k < nrt && e[k] != 0.0 {
            for j in k + 1..n {
                let mut dot = 0.0;
                for i in k + 1..n {
                    dot += v[i * n + k] * v[i * n + j];
                }
                let w = -dot / v[(k + 1) * n + k];
                for i in k + 1..n {
                    v[i * n + j] += w * v[i * n + k];
                }
            }
        }
        for i in 0..n {
            v[i * n + k] = 0.0;
        }
        v[k * n + k] = 1.0;
    }

    // diagonalise
    let last = p - 1;
    let eps = machine_eps();
    let tiny = 2.0f64.powf(-966.0);
    while p > 0 {
        // k: start of the active block; what: 1 deflate s[p-1], 2 split at s[k], 3 QR step, 4 converged
        let what;
        let mut k = (p as isize) - 2;
        while k >= 0 {
            if e[k as usize].abs() <= tiny + eps * (s[k as usize].abs() + s[(k + 1) as usize].abs()) {
                e[k as usize] = 0.0;
                break;
            }
            k -= 1;
        }
        if k == (p as isize) - 2 {
            what = 4;
        } else {
            let mut z = (p as isize) - 1;
            while z > k {
                let around = (if z != p as isize { e[z as usize].abs() } else { 0.0 }) + (if z != k + 1 { e[(z - 1) as usize].abs() } else { 0.0 });
                if s[z as usize].abs() <= tiny + eps * around {
                    s[z as usize] = 0.0;
                    break;
                }
                z -= 1;
            }
            if z == k {
                what = 3;
            } else if z == (p as isize) - 1 {
                what = 1;
            } else {
                what = 2;
                k = z;
            }
        }
        k += 1;

        if what == 1 {
            let mut f = e[p - 2];
            e[p - 2] = 0.0;
            let mut j = (p as isize) - 2;
            while j >= k {
                let t = hyp(s[j as usize], f);
                let cs = s[j as usize] / t;
                let sn = f / t;
                s[j as usize] = t;
                if j != k {
                    f = -sn * e[(j - 1) as usize];
                    e[(j - 1) as usize] = cs * e[(j - 1) as usize];
                }
                for i in 0..n {
                    let x = v[i * n + j as usize];
                    let y = v[i * n + (p - 1)];
                    v[i * n + (p - 1)] = cs * y - sn * x;
                    v[i * n + j as usize] = cs * x + sn * y;
                }
                j -= 1;
            }
        } else if what == 2 {
            let mut f = e[(k - 1) as usize];
            e[(k - 1) as usize] = 0.0;
            for j in k..(p as isize) {
                let t = hyp(s[j as usize], f);
                let cs = s[j as usize] / t;
                let sn = f / t;
                s[j as usize] = t;
                f = -sn * e[j as usize];
                e[j as usize] = cs * e[j as usize];
                for i in 0..m {
                    let x = u[i * m + j as usize];
                    let y = u[i * m + (k - 1) as usize];
                    u[i * m + (k - 1) as usize] = cs * y - sn * x;
                    u[i * m + j as usize] = cs * x + sn * y;
                }
            }
        } else if what == 3 {
            // shift
            let scale = s[p - 1].abs().max(s[p - 2].abs()).max(e[p - 2].abs()).max(s[k as usize].abs()).max(e[k as usize].abs());
            let sp = s[p - 1] / scale;
            let spm1 = s[p - 2] / scale;
            let epm1 = e[p - 2] / scale;
            let sk = s[k as usize] / scale;
            let ek = e[k as usize] / scale;
            let b = ((spm1 + sp) * (spm1 - sp) + epm1 * epm1) / 2.0;
            let c = (sp * epm1) * (sp * epm1);
            let mut shift = 0.0;
            if b != 0.0 || c != 0.0 {
                shift = (b * b + c).sqrt();
                if b < 0.0 {
                    shift = -shift;
                }
                shift = c / (b + shift);
            }
            let mut f = (sk + sp) * (sk - sp) + shift;
            let mut g = sk * ek;
            for j in k..(p as isize) - 1 {
                let r = hyp(f, g);
                let cs = f / r;
                let sn = g / r;
                if j != k {
                    e[(j - 1) as usize] = r;
                }
                f = cs * s[j as usize] + sn * e[j as usize];
                e[j as usize] = cs * e[j as usize] - sn * s[j as usize];
                g = sn * s[(j + 1) as usize];
                s[(j + 1) as usize] = cs * s[(j + 1) as usize];
                for i in 0..n {
                    let x = v[i * n + j as usize];
                    let y = v[i * n + (j as usize + 1)];
                    v[i * n + (j as usize + 1)] = cs * y - sn * x;
                    v[i * n + j as usize] = cs * x + sn * y;
                }
                let r = hyp(f, g);
                let cs = f / r;
                let sn = g / r;
                s[j as usize] = r;
                f = cs * e[j as usize] + sn * s[(j + 1) as usize];
                s[(j + 1) as usize] = cs * s[(j + 1) as usize] - sn * e[j as usize];
                g = sn * e[(j + 1) as usize];
                e[(j + 1) as usize] = cs * e[(j + 1) as usize];
                if j < (m as isize) - 1 {
                    for i in 0..m {
                        let x = u[i * m + j as usize];
                        let y = u[i * m + (j as usize + 1)];
                        u[i * m + (j as usize + 1)] = cs * y - sn * x;
                        u[i * m + j as usize] = cs * x + sn * y;
                    }
                }
            }
            e[p - 2] = f;
        } else if what == 4 {
            // make s[k] non-negative, then move it to its place
            if s[k as usize] <= 0.0 {
                s[k as usize] = if s[k as usize] < 0.0 { -s[k as usize] } else { 0.0 };
                for i in 0..last + 1 {
                    v[i * n + k as usize] = -v[i * n + k as usize];
                }
            }
            while k < last as isize {
                if s[k as usize] >= s[(k + 1) as usize] {
                    break;
                }
                let keep = s[k as usize];
                s[k as usize] = s[(k + 1) as usize];
                s[(k + 1) as usize] = keep;
                if k < (n as isize) - 1 {
                    for i in 0..n {
                        let keep = v[i * n + (k as usize + 1)];
                        v[i * n + (k as usize + 1)] = v[i * n + k as usize];
                        v[i * n + k as usize] = keep;
                    }
                }
                if k < (m as isize) - 1 {
                    for i in 0..m {
                        let keep = u[i * m + (k as usize + 1)];
                        u[i * m + (k as usize + 1)] = u[i * m + k as usize];
                        u[i * m + k as usize] = keep;
                    }
                }
                k += 1;
            }
            p -= 1;
        }
    }
    (u, s, v)
}

pub fn svd(m: usize, n: usize, input: &Vec<f64>) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    let (u, s, v) = svd_tall(m, n, input);
    (u, linear::diagonal(m, n, &s), v)
}

/// A = U * S * V' from the eigenvectors of A'*A, for m >= n >= 1 and A of full rank: S is diagonal with the roots of the
/// eigenvalues, U = A * V * S^-1, extended by zeros
pub fn direct(m: usize, n: usize, a: &Vec<f64>) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    let gram = linear::product(n, m, n, &linear::transpose(m, n, a), a);
    let (d, _, v) = spectral::eigen(n, n, &gram);
    let mut sv = Vec::new();
    for i in 0..n {
        sv.push(d[i].sqrt());
    }
    let sq = linear::diagonal(n, n, &sv);
    let (_, _, si) = linear::inverse(n, n, &sq).unwrap();
    if m == n {
        let u = linear::product(m, n, n, &linear::product(m, n, n, a, &v), &si);
        return (u, sq, v);
    }
    let wide = linear::beside(n, n, &si, m - n, &linear::zeros(n, m - n));
    let u = linear::product(m, n, m, &linear::product(m, n, n, a, &v), &wide);
    (u, linear::stack(n, n, &sq, m - n, &linear::zeros(m - n, n)), v)
}
