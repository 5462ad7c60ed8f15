//! Eigenvalues and eigenvectors of a real square matrix: tred2/tql2 (symmetric), orthes/hqr2 (general).
use crate::*;

/// (d, e, V): real parts, imaginary parts, eigenvectors
pub fn eigen(rows: usize, n: usize, a: &Vec<f64>) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    assert!(rows == n);
    let mut v = unspecified(n * n);
    let mut d = unspecified(n);
    let mut e = unspecified(n);
    let mut sym = true;
    let mut c = 0;
    while c < n && sym {
        let mut r = 0;
        while r < n && sym {
            sym = a[r * n + c] == a[c * n + r];
            r += 1;
        }
        c += 1;
    }
    if sym {
        for r in 0..n {
            for c in 0..n {
                v[r * n + c] = a[r * n + c];
            }
        }
        tridiagonalise(n, &mut v, &mut d, &mut e);
        ql(n, &mut v, &mut d, &mut e);
    } else {
        let mut h = unspecified(n * n);
        for c in 0..n {
            for r in 0..n {
                h[r * n + c] = a[r * n + c];
            }
        }
        hessenberg(n, &mut h, &mut v);
        schur(n, &mut h, &mut v, &mut d, &mut e);
    }
    (d, e, v)
}

/// Householder reduction of the symmetric matrix in v: diagonal to d, sub-diagonal to e, transformations to v
pub fn tridiagonalise(n: usize, v: &mut Vec<f64>, d: &mut Vec<f64>, e: &mut Vec<f64>) {
    for j in 0..n {
        d[j] = v[(n - 1) * n + j];
    }
    for i in (1..n).rev() {
        let mut scale = 0.0;
        let mut h = 0.0;
        for k in 0..i {
            scale += d[k].abs();
        }
        if scale == 0.0 {
            e[i] = d[i - 1];
            for j in 0..i {
                d[j] = v[(i - 1) * n + j];
                v[i * n + j] = 0.0;
                v[j * n + i] = 0.0;
            }
        } else {
            for k in 0..i {
                d[k] /= scale;
                h += d[k] * d[k];
            }
            let f = d[i - 1];
            let mut g = h.sqrt();
            if f > 0.0 {
                g = -g;
            }
            e[i] = scale * g;
            h -= f * g;
            d[i - 1] = f - g;
            for j in 0..i {
                e[j] = 0.0;
            }
            // similarity transformation of the leading i rows and columns
            for j in 0..i {
                let f = d[j];
                v[j * n + i] = f;
                let mut g = e[j] + v[j * n + j] * f;
                for k in j + 1..i {
                    g += v[k * n + j] * d[k];
                    e[k] += v[k * n + j] * f;
                }
                e[j] = g;
            }
            let mut f = 0.0;
            for j in 0..i {
                e[j] /= h;
                f += e[j] * d[j];
            }
            let hh = f / (h + h);
            for j in 0..i {
                e[j] -= hh * d[j];
            }
            for j in 0..i {
                let f = d[j];
                let g = e[j];
                for k in j..i {
                    v[k * n + j] -= f * e[k] + g * d[k];
                }
                d[j] = v[(i - 1) * n + j];
                v[i * n + j] = 0.0;
            }
        }
        d[i] = h;
    }
    // accumulate the transformations
    for i in 0..n - 1 {
        v[(n - 1) * n + i] = v[i * n + i];
        v[i * n + i] = 1.0;
        let h = d[i + 1];
        if h != 0.0 {
            for k in 0..i + 1 {
                d[k] = v[k * n + (i + 1)] / h;
            }
            for j in 0..i + 1 {
                let mut g = 0.0;
                for k in 0..i + 1 {
                    g += v[k * n + (i + 1)] * v[k * n + j];
                }
                for k in 0..i + 1 {
                    v[k * n + j] -= g * d[k];
                }
            }
        }
        for k in 0..i + 1 {
            v[k * n + (i + 1)] = 0.0;
        }
    }
    for j in 0..n {
        d[j] = v[(n - 1) * n + j];
        v[(n - 1) * n + j] = 0.0;
    }
    v[(n - 1) * n + (n - 1)] = 1.0;
    e[0] = 0.0;
}

/// implicit QL on the tridiagonal (d, e), accumulated in v; eigenvalues end sorted descending
pub fn ql(n: usize, v: &mut Vec<f64>, d: &mut Vec<f64>, e: &mut Vec<f64>) {
    for i in 1..n {
        e[i - 1] = e[i];
    }
    e[n - 1] = 0.0;
    let mut f = 0.0;
    let mut tst1: f64 = 0.0;
    let eps = machine_eps();
    for l in 0..n {
        tst1 = tst1.max(d[l].abs() + e[l].abs());
        let mut m = l;
        while m < n {
            if e[m].abs() <= eps * tst1 {
                break;
            }
            m += 1;
        }
        if m > l {
            loop {
                let g = d[l];
                let mut p = (d[l + 1] - g) / (2.0 * e[l]);
                let mut r = hyp(p, 1.0);
                if p < 0.0 {
                    r = -r;
                }
                d[l] = e[l] / (p + r);
                d[l + 1] = e[l] * (p + r);
                let dl1 = d[l + 1];
                let h = g - d[l];
                for i in l + 2..n {
                    d[i] -= h;
                }
                f += h;
                p = d[m];
                let mut c = 1.0;
                let mut c2 = 1.0;
                let mut c3 = 1.0;
                let el1 = e[l + 1];
                let mut s = 0.0;
                let mut s2 = 0.0;
                for i in (l..m).rev() {
                    c3 = c2;
                    c2 = c;
                    s2 = s;
                    let g = c * e[i];
                    let h = c * p;
                    let r = hyp(p, e[i]);
                    e[i + 1] = s * r;
                    s = e[i] / r;
                    c = p / r;
                    p = c * d[i] - s * g;
                    d[i + 1] = h + s * (c * g + s * d[i]);
                    for k in 0..n {
                        let x = v[k * n + i];
                        let y = v[k * n + (i + 1)];
                        v[k * n + (i + 1)] = s * x + c * y;
                        v[k * n + i] = c * x - s * y;
                    }
                }
                p = -s * s2 * c3 * el1 * e[l] / dl1;
                e[l] = s * p;
                d[l] = c * p;
                if e[l].abs() <= eps * tst1 {
                    break;
                }
            }
        }
        d[l] += f;
        e[l] = 0.0;
    }
    // selection sort, descending, columns of v alongside
    for i in 0..n - 1 {
        let mut k = i;
        let mut p = d[i];
        for j in i + 1..n {
            if d[j] > p {
                k = j;
                p = d[j];
            }
        }
        if k != i {
            d[k] = d[i];
            d[i] = p;
            for j in 0..n {
                let keep = v[j * n + i];
                v[j * n + i] = v[j * n + k];
                v[j * n + k] = keep;
            }
        }
    }
}

/// Householder reduction of h to Hessenberg form, transformations accumulated in v
pub fn hessenberg(n: usize, h: &mut Vec<f64>, v: &mut Vec<f64>) {
    let mut ort = unspecified(n);
    let high = n - 1;
    for m in 1..high {
        let mut scale = 0.0;
        for i in m..high + 1 {
            scale += h[i * n + (m - 1)].abs();
        }
        if scale != 0.0 {
            let mut w = 0.0;
            for i in (m..high + 1).rev() {
                ort[i] = h[i * n + (m - 1)] / scale;
                w += ort[i] * ort[i];
            }
            let mut g = w.sqrt();
            if ort[m] > 0.0 {
                g = -g;
            }
            w -= ort[m] * g;
            ort[m] -= g;
            for j in m..n {
                let mut f = 0.0;
                for i in (m..high + 1).rev() {
                    f += ort[i] * h[i * n + j];
                }
                f /= w;
                for i in m..high + 1 {
                    h[i * n + j] -= f * ort[i];
                }
            }
            for i in 0..high + 1 {
                let mut f = 0.0;
                for j in (m..high + 1).rev() {
                    f += ort[j] * h[i * n + j];
                }
                f /= w;
                for j in m..high + 1 {
                    h[i * n + j] -= f * ort[j];
                }
            }
            ort[m] = scale * ort[m];
            h[m * n + (m - 1)] = scale * g;
        }
    }
    for i in 0..n {
        for j in 0..n {
            v[i * n + j] = if i == j { 1.0 } else { 0.0 };
        }
    }
    for m in (1..high).rev() {
        if h[m * n + (m - 1)] != 0.0 {
            for i in m + 1..high + 1 {
                ort[i] = h[i * n + (m - 1)];
            }
            for j in m..high + 1 {
                let mut g = 0.0;
                for i in m..high + 1 {
                    g += ort[i] * v[i * n + j];
                }
                g = (g / ort[m]) / h[m * n + (m - 1)];
                for i in m..high + 1 {
                    v[i * n + j] += g * ort[i];
                }
            }
        }
    }
}

/// (xr + i*xi) / (yr + i*yi)
pub fn complex_div(xr: f64, xi: f64, yr: f64, yi: f64) -> (f64, f64) {
    if yr.abs() > yi.abs() {
        let q = yi / yr;
        let d = yr + q * yi;
        ((xr + q * xi) / d, (xi - q * xr) / d)
    } else {
        let q = yr / yi;
        let d = yi + q * yr;
        ((q * xr + xi) / d, (q * xi - xr) / d)
    }
}

/// position of element (i, j)
fn at(n: isize, i: isize, j: isize) -> usize {
    (i * n + j) as usize
}

/// double-shift QR on the Hessenberg matrix h, then eigenvectors by back-substitution, in v
pub fn schur(size: usize, h: &mut Vec<f64>, v: &mut Vec<f64>, d: &mut Vec<f64>, e: &mut Vec<f64>) {
    let nn = size as isize;
    let mut n = nn - 1;
    let low: isize = 0;
    let high = nn - 1;
    let eps = machine_eps();
    let mut exshift = 0.0;
    let mut p = 0.0;
    let mut q = 0.0;
    let mut r = 0.0;
    let mut s = 0.0;
    let mut z: f64 = 0.0;
    

    let mut norm = 0.0;
    for i in 0..nn {
        let from = if i - 1 > 0 { i - 1 } else { 0 };
        for j in from..nn {
            norm += h[at(nn, i, j)].abs();
        }
    }

    let mut iter = 0;
    while n >= low {
        // a single small sub-diagonal element
        let mut l = n;
        while l > low {
            s = h[at(nn, l - 1, l - 1)].abs() + h[at(nn, l, l)].abs();
            if s == 0.0 {
                s = norm;
            }
            if h[at(nn, l, l - 1)].abs() < eps * s {
                break;
            }
            l -= 1;
        }
        if l == n {
            // one root
            h[at(nn, n, n)] += exshift;
            d[n as usize] = h[at(nn, n, n)];
            e[n as usize] = 0.0;
            n -= 1;
            iter = 0;
        } else if l == n - 1 {
            // two roots
            let w = h[at(nn, n, n - 1)] * h[at(nn, n - 1, n)];
            p = (h[at(nn, n - 1, n - 1)] - h[at(nn, n, n)]) / 2.0;
            q = p * p + w;
            z = q.abs().sqrt();
            h[at(nn, n, n)] += exshift;
            h[at(nn, n - 1, n - 1)] += exshift;
            let x = h[at(nn, n, n)];
            if q >= 0.0 {
                // real pair
                z = if p >= 0.0 { p + z } else { p - z };
                d[(n - 1) as usize] = x + z;
                d[n as usize] = d[(n - 1) as usize];
                if z != 0.0 {
                    d[n as usize] = x - w / z;
                }
                e[(n - 1) as usize] = 0.0;
                e[n as usize] = 0.0;
                let x = h[at(nn, n, n - 1)];
                s = x.abs() + z.abs();
                p = x / s;
                q = z / s;
                r = (p * p + q * q).sqrt();
                p /= r;
                q /= r;
                for j in n - 1..nn {
                    z = h[at(nn, n - 1, j)];
                    h[at(nn, n - 1, j)] = q * z + p * h[at(nn, n, j)];
                    h[at(nn, n, j)] = q * h[at(nn, n, j)] - p * z;
                }
                for i in 0..n + 1 {
                    z = h[at(nn, i, n - 1)];
                    h[at(nn, i, n - 1)] = q * z + p * h[at(nn, i, n)];
                    h[at(nn, i, n)] = q * h[at(nn, i, n)] - p * z;
                }
                for i in low..high + 1 {
                    z = v[at(nn, i, n - 1)];
                    v[at(nn, i, n - 1)] = q * z + p * v[at(nn, i, n)];
                    v[at(nn, i, n)] = q * v[at(nn, i, n)] - p * z;
                }
            } else {
                // complex pair
                d[(n - 1) as usize] = x + p;
                d[n as usize] = x + p;
                e[(n - 1) as usize] = z;
                e[n as usize] = -z;
            }
            n -= 2;
            iter = 0;
        } else {
            // form the shift
            let mut x = h[at(nn, n, n)];
            let mut y = 0.0;
            let mut w = 0.0;
            if l < n {
                y = h[at(nn, n - 1, n - 1)];
                w = h[at(nn, n, n - 1)] * h[at(nn, n - 1, n)];
            }
            if iter == 10 {
                exshift += x;
                for i in low..n + 1 {
                    h[at(nn, i, i)] -= x;
                }
                s = h[at(nn, n, n - 1)].abs() + h[at(nn, n - 1, n - 2)].abs();
                y = 0.75 * s;
                x = y;
                w = -0.4375 * s * s;
            }
            if iter == 30 {
                s = (y - x) / 2.0;
                s = s * s + w;
                if s > 0.0 {
                    s = s.sqrt();
                    if y < x {
                        s = -s;
                    }
                    s = x - w / ((y - x) / 2.0 + s);
                    for i in low..n + 1 {
                        h[at(nn, i, i)] -= s;
                    }
                    exshift += s;
                    w = 0.964;
                    y = w;
                    x = y;
                }
            }
            iter += 1;

            // two consecutive small sub-diagonal elements
            let mut m = n - 2;
            while m >= l {
                z = h[at(nn, m, m)];
                r = x - z;
                s = y - z;
                p = (r * s - w) / h[at(nn, m + 1, m)] + h[at(nn, m, m + 1)];
                q = h[at(nn, m + 1, m + 1)] - z - r - s;
                r = h[at(nn, m + 2, m + 1)];
                s = p.abs() + q.abs() + r.abs();
                p /= s;
                q /= s;
                r /= s;
                if m == l {
                    break;
                }
                if h[at(nn, m, m - 1)].abs() * (q.abs() + r.abs()) < eps * (p.abs() * (h[at(nn, m - 1, m - 1)].abs() + z.abs() + h[at(nn, m + 1, m + 1)].abs())) {
                    break;
                }
                m -= 1;
            }
            for i in m + 2..n + 1 {
                h[at(nn, i, i - 2)] = 0.0;
                if i > m + 2 {
                    h[at(nn, i, i - 3)] = 0.0;
                }
            }
            // double QR step on rows l..=n, columns m..=n
            for k in m..n {
                let inner = k != n - 1;
                if k != m {
                    p = h[at(nn, k, k - 1)];
                    q = h[at(nn, k + 1, k - 1)];
                    r = if inner { h[at(nn, k + 2, k - 1)] } else { 0.0 };
                    x = p.abs() + q.abs() + r.abs();
                    if x == 0.0 {
                        continue;
                    }
                    p /= x;
                    q /= x;
                    r /= x;
                }
                s = (p * p + q * q + r * r).sqrt();
                if p < 0.0 {
                    s = -s;
                }
                if s != 0.0 {
                    if k != m {
                        h[at(nn, k, k - 1)] = -s * x;
                    } else if l != m {
                        h[at(nn, k, k - 1)] = -h[at(nn, k, k - 1)];
                    }
                    p += s;
                    x = p / s;
                    y = q / s;
                    z = r / s;
                    q /= p;
                    r /= p;
                    for j in k..nn {
                        p = h[at(nn, k, j)] + q * h[at(nn, k + 1, j)];
                        if inner {
                            p += r * h[at(nn, k + 2, j)];
                            h[at(nn, k + 2, j)] -= p * z;
                        }
                        h[at(nn, k, j)] -= p * x;
                        h[at(nn, k + 1, j)] -= p * y;
                    }
                    let upto = if n < k + 3 { n } else { k + 3 };
                    for i in 0..upto + 1 {
                        p = x * h[at(nn, i, k)] + y * h[at(nn, i, k + 1)];
                        if inner {
                            p += z * h[at(nn, i, k + 2)];
                            h[at(nn, i, k + 2)] -= p * r;
                        }
                        h[at(nn, i, k)] -= p;
                        h[at(nn, i, k + 1)] -= p * q;
                    }
                    for i in low..high + 1 {
                        p = x * v[at(nn, i, k)] + y * v[at(nn, i, k + 1)];
                        if inner {
                            p += z * v[at(nn, i, k + 2)];
                            v[at(nn, i, k + 2)] -= p * r;
                        }
                        v[at(nn, i, k)] -= p;
                        v[at(nn, i, k + 1)] -= p * q;
                    }
                }
            }
        }
    }

    // back-substitution: eigenvectors of the quasi-triangular matrix
    if norm == 0.0 {
        return;
    }
    for n in (0..nn).rev() {
        p = d[n as usize];
        q = e[n as usize];
        if q == 0.0 {
            // real vector
            let mut l = n;
            h[at(nn, n, n)] = 1.0;
            for i in (0..n).rev() {
                let w = h[at(nn, i, i)] - p;
                r = 0.0;
                for j in l..n + 1 {
                    r += h[at(nn, i, j)] * h[at(nn, j, n)];
                }
                if e[i as usize] < 0.0 {
                    z = w;
                    s = r;
                } else {
                    l = i;
                    if e[i as usize] == 0.0 {
                        if w != 0.0 {
                            h[at(nn, i, n)] = -r / w;
                        } else {
                            h[at(nn, i, n)] = -r / (eps * norm);
                        }
                    } else {
                        let x = h[at(nn, i, i + 1)];
                        let y = h[at(nn, i + 1, i)];
                        q = (d[i as usize] - p) * (d[i as usize] - p) + e[i as usize] * e[i as usize];
                        let t = (x * s - z * r) / q;
                        h[at(nn, i, n)] = t;
                        if x.abs() > z.abs() {
                            h[at(nn, i + 1, n)] = (-r - w * t) / x;
                        } else {
                            h[at(nn, i + 1, n)] = (-s - y * t) / z;
                        }
                    }
                    let t = h[at(nn, i, n)].abs();
                    if (eps * t) * t > 1.0 {
                        for j in i..n + 1 {
                            h[at(nn, j, n)] /= t;
                        }
                    }
                }
            }
        } else if q < 0.0 {
            // complex vector, columns n-1 (real part) and n (imaginary part)
            let mut l = n - 1;
            if h[at(nn, n, n - 1)].abs() > h[at(nn, n - 1, n)].abs() {
                h[at(nn, n - 1, n - 1)] = q / h[at(nn, n, n - 1)];
                h[at(nn, n - 1, n)] = -(h[at(nn, n, n)] - p) / h[at(nn, n, n - 1)];
            } else {
                let (re, im) = complex_div(0.0, -h[at(nn, n - 1, n)], h[at(nn, n - 1, n - 1)] - p, q);
                h[at(nn, n - 1, n - 1)] = re;
                h[at(nn, n - 1, n)] = im;
            }
            h[at(nn, n, n - 1)] = 0.0;
            h[at(nn, n, n)] = 1.0;
            for i in (0..n - 1).rev() {
                let mut ra = 0.0;
                let mut sa = 0.0;
                for j in l..n + 1 {
                    ra += h[at(nn, i, j)] * h[at(nn, j, n - 1)];
                    sa += h[at(nn, i, j)] * h[at(nn, j, n)];
                }
                let w = h[at(nn, i, i)] - p;
                if e[i as usize] < 0.0 {
                    z = w;
                    r = ra;
                    s = sa;
                } else {
                    l = i;
                    if e[i as usize] == 0.0 {
                        let (re, im) = complex_div(-ra, -sa, w, q);
                        h[at(nn, i, n - 1)] = re;
                        h[at(nn, i, n)] = im;
                    } else {
                        let x = h[at(nn, i, i + 1)];
                        let y = h[at(nn, i + 1, i)];
                        let mut vr = (d[i as usize] - p) * (d[i as usize] - p) + e[i as usize] * e[i as usize] - q * q;
                        let vi = (d[i as usize] - p) * 2.0 * q;
                        if vr == 0.0 && vi == 0.0 {
                            vr = eps * norm * (w.abs() + q.abs() + x.abs() + y.abs() + z.abs());
                        }
                        let (re, im) = complex_div(x * r - z * ra + q * sa, x * s - z * sa - q * ra, vr, vi);
                        h[at(nn, i, n - 1)] = re;
                        h[at(nn, i, n)] = im;
                        if x.abs() > z.abs() + q.abs() {
                            h[at(nn, i + 1, n - 1)] = (-ra - w * h[at(nn, i, n - 1)] + q * h[at(nn, i, n)]) / x;
                            h[at(nn, i + 1, n)] = (-sa - w * h[at(nn, i, n)] - q * h[at(nn, i, n - 1)]) / x;
                        } else {
                            let (re, im) = complex_div(-r - y * h[at(nn, i, n - 1)], -s - y * h[at(nn, i, n)], z, q);
                            h[at(nn, i + 1, n - 1)] = re;
                            h[at(nn, i + 1, n)] = im;
                        }
                    }
                    let t = h[at(nn, i, n - 1)].abs().max(h[at(nn, i, n)].abs());
                    if (eps * t) * t > 1.0 {
                        for j in i..n + 1 {
                            h[at(nn, j, n - 1)] /= t;
                            h[at(nn, j, n)] /= t;
                        }
                    }
                }
            }
        }
    }
    // V := V * (vectors of the quasi-triangular matrix)
    for j in (low..nn).rev() {
        for i in low..high + 1 {
            z = 0.0;
            let upto = if j < high { j } else { high };
            for k in low..upto + 1 {
                z += v[at(nn, i, k)] * h[at(nn, k, j)];
            }
            v[at(nn, i, j)] = z;
        }
    }
}
