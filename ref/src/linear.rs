//! LU with partial pivoting (Doolittle by columns), Cholesky, Householder QR, and the triangular solves.
use crate::*;

/// P*A = L*U; unit lower part and upper part share `f`; `perm[i]` is the row of A that ended in row i.
pub fn lu(m: usize, n: usize, a: &Vec<f64>) -> (Vec<f64>, bool, Vec<usize>) {
    let mut f = a.clone();
    let mut perm = unspecified_index(m);
    let mut r = 0;
    while r < m {
        perm[r] = r;
        r += 1;
    }
    let mut even = true;
    for c in 0..n {
        // column c of L and U
        for r in 0..m {
            let stop = if r < c { r } else { c };
            let mut dot = 0.0;
            for k in 0..stop {
                dot += f[r * n + k] * f[k * n + c];
            }
            f[r * n + c] -= dot;
        }
        // partial pivoting on the rows c..m
        let mut best = c;
        for r in c + 1..m {
            if f[r * n + c].abs() > f[best * n + c].abs() {
                best = r;
            }
        }
        if best != c {
            for k in 0..n {
                let keep = f[best * n + k];
                f[best * n + k] = f[c * n + k];
                f[c * n + k] = keep;
            }
            let keep = perm[best];
            perm[best] = perm[c];
            perm[c] = keep;
            even = !even;
        }
        if c < m && f[c * n + c] != 0.0 {
            for r in c + 1..m {
                f[r * n + c] /= f[c * n + c];
            }
        }
    }
    (f, even, perm)
}

/// X with L*U*X = B(perm, :); None exactly when a diagonal element of U is zero
pub fn lu_solve(m: usize, n: usize, f: &Vec<f64>, perm: &Vec<usize>, rows: usize, k: usize, b: &Vec<f64>) -> Option<(usize, usize, Vec<f64>)> {
    assert!(rows == m);
    assert!(m == n);
    for i in 0..n {
        if f[i * n + i] == 0.0 {
            return None;
        }
    }
    let mut x = unspecified(m * k);
    let mut to = 0;
    for i in 0..m {
        for j in 0..k {
            x[to] = b[perm[i] * k + j];
            to += 1;
        }
    }
    // forward: L*Y = B(perm, :)
    for p in 0..n {
        for i in p + 1..n {
            for j in 0..k {
                x[i * k + j] -= f[i * n + p] * x[p * k + j];
            }
        }
    }
    // backward: U*X = Y
    for p in (0..n).rev() {
        for j in 0..k {
            x[p * k + j] /= f[p * n + p];
        }
        for i in 0..p {
            for j in 0..k {
                x[i * k + j] -= f[i * n + p] * x[p * k + j];
            }
        }
    }
    Some((m, k, x))
}

/// A = L*L'; None unless A is square, symmetric and every pivot is positive
pub fn cholesky(m: usize, cols: usize, a: &Vec<f64>) -> Option<Vec<f64>> {
    if m != cols {
        return None;
    }
    let n = m;
    let mut l = unspecified(n * n);
    for r in 0..n {
        let mut sq = 0.0;
        for c in 0..r {
            let mut dot = 0.0;
            for k in 0..c {
                dot += l[c * n + k] * l[r * n + k];
            }
            let v = (a[r * n + c] - dot) / l[c * n + c];
            l[r * n + c] = v;
            sq += v * v;
            if a[c * n + r] != a[r * n + c] {
                return None;
            }
        }
        let d = a[r * n + r] - sq;
        if !(d > 0.0) {
            return None;
        }
        l[r * n + r] = d.sqrt();
        for c in r + 1..n {
            l[r * n + c] = 0.0;
        }
    }
    Some(l)
}

/// X with L*L'*X = B
pub fn cholesky_solve(n: usize, l: &Vec<f64>, rows: usize, k: usize, b: &Vec<f64>) -> (usize, usize, Vec<f64>) {
    assert!(n == rows);
    let mut x = b.clone();
    for p in 0..n {
        for j in 0..k {
            for i in 0..p {
                x[p * k + j] -= x[i * k + j] * l[p * n + i];
            }
            x[p * k + j] /= l[p * n + p];
        }
    }
    for p in (0..n).rev() {
        for j in 0..k {
            for i in p + 1..n {
                x[p * k + j] -= x[i * k + j] * l[i * n + p];
            }
            x[p * k + j] /= l[p * n + p];
        }
    }
    (n, k, x)
}

/// Householder vectors on and below the diagonal of `h`, R strictly above it, its diagonal in `d`.
/// Reflection c is I + u*u'/(d[c]*u[c]) with u = column c of h from row c on.
pub fn qr(m: usize, n: usize, a: &Vec<f64>) -> (Vec<f64>, Vec<f64>) {
    let mut h = a.clone();
    let steps = if m < n { m } else { n };
    let mut d = unspecified(steps);
    for c in 0..steps {
        let mut len2 = 0.0;
        for r in c..m {
            len2 += h[r * n + c] * h[r * n + c];
        }
        // the reflected coordinate has the sign opposite to the element it replaces
        let target = if h[c * n + c] > 0.0 { -len2.sqrt() } else { len2.sqrt() };
        d[c] = target;
        if target != 0.0 {
            h[c * n + c] -= target;
            for j in c + 1..n {
                let mut dot = 0.0;
                for r in c..m {
                    dot += h[r * n + j] * h[r * n + c];
                }
                let w = dot / (target * h[c * n + c]);
                for r in c..m {
                    h[r * n + j] += w * h[r * n + c];
                }
            }
        }
    }
    (h, d)
}

/// Q = H_0 * H_1 * ... applied to the identity, last reflection first
pub fn qr_q(m: usize, n: usize, h: &Vec<f64>, d: &Vec<f64>) -> (usize, usize, Vec<f64>) {
    let mut q = vec![0.0; m * m];
    for i in 0..m {
        q[i * m + i] = 1.0;
    }
    let steps = if m < n { m } else { n };
    for c in (0..steps).rev() {
        if h[c * n + c] != 0.0 {
            for j in c..m {
                let mut dot = 0.0;
                for r in c..m {
                    dot += h[r * n + c] * q[r * m + j];
                }
                let w = dot / (d[c] * h[c * n + c]);
                for r in c..m {
                    q[r * m + j] += w * h[r * n + c];
                }
            }
        }
    }
    (m, m, q)
}

/// least squares: R*X = (Q'*B) restricted to the first n rows; None exactly when the columns are dependent
pub fn qr_solve(m: usize, n: usize, h: &Vec<f64>, d: &Vec<f64>, rows: usize, k: usize, b: &Vec<f64>) -> Option<(usize, usize, Vec<f64>)> {
    assert!(rows == m);
    for j in 0..n {
        if j >= d.len() || d[j] == 0.0 {
            return None;
        }
    }
    let mut x = b.clone();
    for c in 0..n {
        for j in 0..k {
            let mut dot = 0.0;
            for r in c..m {
                dot += h[r * n + c] * x[r * k + j];
            }
            let w = dot / (d[c] * h[c * n + c]);
            for r in c..m {
                x[r * k + j] += w * h[r * n + c];
            }
        }
    }
    for p in (0..n).rev() {
        for j in 0..k {
            x[p * k + j] /= d[p];
        }
        for i in 0..p {
            for j in 0..k {
                x[i * k + j] -= h[i * n + p] * x[p * k + j];
            }
        }
    }
    x.truncate(n * k);
    Some((n, k, x))
}

/// contents of the n-by-n identity
pub fn identity(n: usize) -> Vec<f64> {
    let mut x = vec![0.0; n * n];
    for i in 0..n {
        x[i * n + i] = 1.0;
    }
    x
}

/// contents of the n-by-m transpose of the m-by-n matrix a
pub fn transpose(m: usize, n: usize, a: &Vec<f64>) -> Vec<f64> {
    let mut x = unspecified(n * m);
    for i in 0..n {
        for j in 0..m {
            x[i * m + j] = a[j * n + i];
        }
    }
    x
}

/// contents of the m-by-p product of a (m-by-n) and b (n-by-p)
pub fn product(m: usize, n: usize, p: usize, a: &Vec<f64>, b: &Vec<f64>) -> Vec<f64> {
    let mut x = unspecified(m * p);
    for i in 0..m {
        for j in 0..p {
            let mut dot = 0.0;
            for k in 0..n {
                dot += a[i * n + k] * b[k * p + j];
            }
            x[i * p + j] = dot;
        }
    }
    x
}

fn regular(n: usize, f: &Vec<f64>) -> bool {
    for i in 0..n {
        if f[i * n + i] == 0.0 {
            return false;
        }
    }
    true
}

/// det(A) = sign of the row permutation times the product of the pivots
pub fn det(m: usize, n: usize, a: &Vec<f64>) -> f64 {
    assert!(m == n);
    let (f, even, _) = lu(m, n, a);
    let mut d = if even { 1.0 } else { -1.0 };
    for i in 0..n {
        d *= f[i * n + i];
    }
    d
}

pub fn is_regular(m: usize, n: usize, a: &Vec<f64>) -> bool {
    assert!(m == n);
    let (f, _, _) = lu(m, n, a);
    regular(n, &f)
}

pub fn is_singular(m: usize, n: usize, a: &Vec<f64>) -> bool {
    assert!(m == n);
    let (f, _, _) = lu(m, n, a);
    !regular(n, &f)
}

pub fn solve(m: usize, n: usize, a: &Vec<f64>, rows: usize, k: usize, b: &Vec<f64>) -> Option<(usize, usize, Vec<f64>)> {
    let (f, _, perm) = lu(m, n, a);
    lu_solve(m, n, &f, &perm, rows, k, b)
}

pub fn inverse(m: usize, n: usize, a: &Vec<f64>) -> Option<(usize, usize, Vec<f64>)> {
    assert!(m == n);
    let (f, _, perm) = lu(m, n, a);
    lu_solve(m, n, &f, &perm, n, n, &identity(n))
}

/// R of the QR decomposition, m-by-n
pub fn qr_r(m: usize, n: usize, h: &Vec<f64>, d: &Vec<f64>) -> Vec<f64> {
    let mut r = unspecified(m * n);
    for i in 0..m {
        for j in 0..n {
            r[i * n + j] = if i < j {
                h[i * n + j]
            } else if i == j {
                d[i]
            } else {
                0.0
            };
        }
    }
    r
}

/// (R'*R)^-1 * A' with R from the QR decomposition of A
pub fn pinverse(m: usize, n: usize, a: &Vec<f64>) -> (usize, usize, Vec<f64>) {
    let (h, d) = qr(m, n, a);
    let r = qr_r(m, n, &h, &d);
    let g = product(n, m, n, &transpose(m, n, &r), &r);
    let (f, _, perm) = lu(n, n, &g);
    let (_, _, x) = lu_solve(n, n, &f, &perm, n, n, &identity(n)).unwrap();
    (n, m, product(n, n, m, &x, &transpose(m, n, a)))
}

/// contents of the m-by-n matrix with the elements of d on its diagonal
pub fn diagonal(m: usize, n: usize, d: &Vec<f64>) -> Vec<f64> {
    let mut x = vec![0.0; m * n];
    for i in 0..d.len() {
        x[i * n + i] = d[i];
    }
    x
}

/// m-by-n zeros
pub fn zeros(m: usize, n: usize) -> Vec<f64> {
    vec![0.0; m * n]
}

/// the m-by-n matrix a with the m-by-p matrix b to its right
pub fn beside(m: usize, n: usize, a: &Vec<f64>, p: usize, b: &Vec<f64>) -> Vec<f64> {
    let mut x = vec![0.0; m * (n + p)];
    for i in 0..m {
        for j in 0..n {
            x[i * (n + p) + j] = a[i * n + j];
        }
        for j in 0..p {
            x[i * (n + p) + n + j] = b[i * p + j];
        }
    }
    x
}

/// the m-by-n matrix a above the p-by-n matrix b
pub fn stack(m: usize, n: usize, a: &Vec<f64>, p: usize, b: &Vec<f64>) -> Vec<f64> {
    let mut x = a.clone();
    for i in 0..p * n {
        x.push(b[i]);
    }
    x
}

/// In-place transposition by following cycles: position p of the m-by-n storage moves to m*p mod (m*n - 1),
/// the first and the last element stay.
pub fn transpose_cycles(m: usize, n: usize, a: &Vec<f64>) -> (usize, Vec<f64>) {
    let mut f = a.clone();
    let last = m * n - 1;
    let mut done = vec![false; m * n];
    for start in 1..last {
        if !done[start] {
            let mut at = start;
            let mut carried = f[start];
            loop {
                at = (m * at) % last;
                let displaced = f[at];
                f[at] = carried;
                if at == start {
                    break;
                }
                carried = displaced;
                done[at] = true;
            }
        }
    }
    (n, f)
}
