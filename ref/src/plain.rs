//! The operations of a matrix by their definitions: row-major elements, plain loops.
use crate::*;

/// whether two elements count as equal (the relation itself is the subject of another property)
pub fn near(a: f64, b: f64) -> bool {
    a == b
}

pub fn map(a: &Vec<f64>, f: &dyn Fn(&f64) -> f64) -> Vec<f64> {
    let mut d = unspecified(a.len());
    for i in 0..a.len() {
        d[i] = f(&a[i]);
    }
    d
}

/// column by column left fold over the rows
pub fn reduce(n: usize, a: &Vec<f64>, init: &Vec<f64>, f: &dyn Fn(&f64, &f64) -> f64) -> Vec<f64> {
    assert!(init.len() == n);
    let mut d = init.clone();
    let mut at = 0;
    for i in 0..a.len() {
        d[at] = f(&d[at], &a[i]);
        at = (at + 1) % d.len();
    }
    d
}

pub fn reduce_rows(m: usize, n: usize, a: &Vec<f64>, init: &Vec<f64>, f: &dyn Fn(&f64, &f64) -> f64) -> Vec<f64> {
    assert!(init.len() == n);
    let mut d = init.clone();
    for i in 0..m {
        for j in 0..n {
            d[j] = f(&d[j], &a[i * n + j]);
        }
    }
    d
}

pub fn identity(m: usize, n: usize) -> (usize, usize, Vec<f64>) {
    let mut d = unspecified(m * n);
    for i in 0..m * n {
        d[i] = 0.0;
    }
    let k = if m <= n { m } else { n };
    for i in 0..k {
        d[i * n + i] = 1.0;
    }
    (m, n, d)
}

pub fn diagonal(m: usize, n: usize, on: &Vec<f64>) -> (usize, usize, Vec<f64>) {
    let k = if m <= n { m } else { n };
    assert!(on.len() == k);
    let mut d = unspecified(m * n);
    for i in 0..m * n {
        d[i] = 0.0;
    }
    for i in 0..k {
        d[i * n + i] = on[i];
    }
    (m, n, d)
}

pub fn fill(m: usize, n: usize, x: f64) -> (usize, usize, Vec<f64>) {
    let mut d = unspecified(m * n);
    for i in 0..m * n {
        d[i] = x;
    }
    (m, n, d)
}

pub fn negated(a: &Vec<f64>) -> Vec<f64> {
    let mut d = unspecified(a.len());
    for i in 0..a.len() {
        d[i] = -a[i];
    }
    d
}

pub fn scaled(a: &Vec<f64>, x: f64) -> Vec<f64> {
    let mut d = unspecified(a.len());
    for i in 0..a.len() {
        d[i] = x * a[i];
    }
    d
}

pub fn sum(a: &Vec<f64>, b: &Vec<f64>) -> Vec<f64> {
    let mut d = unspecified(a.len());
    for i in 0..a.len() {
        d[i] = a[i] + b[i];
    }
    d
}

pub fn difference(a: &Vec<f64>, b: &Vec<f64>) -> Vec<f64> {
    let mut d = unspecified(a.len());
    for i in 0..a.len() {
        d[i] = a[i] - b[i];
    }
    d
}

pub fn times(a: &Vec<f64>, b: &Vec<f64>) -> Vec<f64> {
    let mut d = unspecified(a.len());
    for i in 0..a.len() {
        d[i] = a[i] * b[i];
    }
    d
}

pub fn quotient(a: &Vec<f64>, b: &Vec<f64>) -> Vec<f64> {
    let mut d = unspecified(a.len());
    for i in 0..a.len() {
        d[i] = a[i] / b[i];
    }
    d
}

// ---- the same in place
pub fn mmap(a: &Vec<f64>, f: &dyn Fn(&f64) -> f64) -> Vec<f64> {
    let mut d = a.clone();
    for i in 0..d.len() {
        d[i] = f(&d[i]);
    }
    d
}

pub fn mnegated(a: &Vec<f64>) -> Vec<f64> {
    let mut d = a.clone();
    for i in 0..d.len() {
        d[i] = -d[i];
    }
    d
}

pub fn mscaled(a: &Vec<f64>, x: f64) -> Vec<f64> {
    let mut d = a.clone();
    for i in 0..d.len() {
        d[i] = x * d[i];
    }
    d
}

pub fn msum(a: &Vec<f64>, b: &Vec<f64>) -> Vec<f64> {
    let mut d = a.clone();
    for i in 0..d.len() {
        d[i] = d[i] + b[i];
    }
    d
}

pub fn mdifference(a: &Vec<f64>, b: &Vec<f64>) -> Vec<f64> {
    let mut d = a.clone();
    for i in 0..d.len() {
        d[i] = d[i] - b[i];
    }
    d
}

pub fn mtimes(a: &Vec<f64>, b: &Vec<f64>) -> Vec<f64> {
    let mut d = a.clone();
    for i in 0..d.len() {
        d[i] = d[i] * b[i];
    }
    d
}

pub fn mquotient(a: &Vec<f64>, b: &Vec<f64>) -> Vec<f64> {
    let mut d = a.clone();
    for i in 0..d.len() {
        d[i] = d[i] / b[i];
    }
    d
}

pub fn product(m: usize, n: usize, a: &Vec<f64>, q: usize, b: &Vec<f64>) -> (usize, usize, Vec<f64>) {
    let mut d = unspecified(m * q);
    for i in 0..m {
        for j in 0..q {
            let mut s = 0.0;
            for k in 0..n {
                s = s + a[i * n + k] * b[k * q + j];
            }
            d[i * q + j] = s;
        }
    }
    (m, q, d)
}

pub fn transpose(m: usize, n: usize, a: &Vec<f64>) -> (usize, usize, Vec<f64>) {
    let mut d = unspecified(a.len());
    let mut from = 0;
    for i in 0..a.len() {
        d[i] = a[from];
        from += n;
        if from >= a.len() {
            from -= a.len();
            from += 1;
        }
    }
    (n, m, d)
}

pub fn transpose_loops(m: usize, n: usize, a: &Vec<f64>) -> (usize, usize, Vec<f64>) {
    let mut d = unspecified(a.len());
    for i in 0..m {
        for j in 0..n {
            d[j * m + i] = a[i * n + j];
        }
    }
    (n, m, d)
}

pub fn transpose_out(m: usize, n: usize, a: &Vec<f64>) -> (usize, usize, Vec<f64>) {
    let mut d = unspecified(a.len());
    for j in 0..n {
        for i in 0..m {
            d[j * m + i] = a[i * n + j];
        }
    }
    (n, m, d)
}

pub fn beside(m: usize, n: usize, a: &Vec<f64>, q: usize, b: &Vec<f64>) -> (usize, usize, Vec<f64>) {
    let mut d = unspecified(m * (n + q));
    let mut from = 0;
    let mut from2 = 0;
    let mut to = 0;
    for _ in 0..m {
        for _ in 0..n {
            d[to] = a[from];
            from += 1;
            to += 1;
        }
        for _ in 0..q {
            d[to] = b[from2];
            from2 += 1;
            to += 1;
        }
    }
    (m, n + q, d)
}

pub fn beside_indexed(m: usize, n: usize, a: &Vec<f64>, q: usize, b: &Vec<f64>) -> (usize, usize, Vec<f64>) {
    let mut d = unspecified(m * (n + q));
    for i in 0..m {
        for j in 0..n {
            d[i * (n + q) + j] = a[i * n + j];
        }
        for j in 0..q {
            d[i * (n + q) + n + j] = b[i * q + j];
        }
    }
    (m, n + q, d)
}

pub fn below(m: usize, n: usize, a: &Vec<f64>, p: usize, b: &Vec<f64>) -> (usize, usize, Vec<f64>) {
    let mut d = unspecified((m + p) * n);
    for i in 0..m * n {
        d[i] = a[i];
    }
    for i in 0..p * n {
        d[m * n + i] = b[i];
    }
    (m + p, n, d)
}

pub fn minor(m: usize, n: usize, a: &Vec<f64>, row: usize, col: usize) -> (usize, usize, Vec<f64>) {
    assert!(row < m && col < n && m > 1 && n > 1);
    let mut d = unspecified((m - 1) * (n - 1));
    let mut to = 0;
    let mut at = 0;
    for i in 0..m {
        if i != row {
            for j in 0..n {
                if j != col {
                    d[to] = a[at + j];
                    to += 1;
                }
            }
        }
        at += n;
    }
    (m - 1, n - 1, d)
}

pub fn block(n: usize, a: &Vec<f64>, r0: usize, c0: usize, r1: usize, c1: usize) -> (usize, usize, Vec<f64>) {
    let rows = r1 - r0;
    let cols = c1 - c0;
    let mut d = unspecified(rows * cols);
    let mut from = r0 * n + c0;
    let mut to = 0;
    for _ in 0..rows {
        for j in 0..cols {
            d[to + j] = a[from + j];
        }
        from += n;
        to += cols;
    }
    (rows, cols, d)
}

pub fn block_indexed(n: usize, a: &Vec<f64>, r0: usize, c0: usize, r1: usize, c1: usize) -> (usize, usize, Vec<f64>) {
    let cols = c1 - c0;
    let mut d = unspecified((r1 - r0) * cols);
    let mut to = 0;
    for i in r0..r1 {
        for j in c0..c1 {
            d[to] = a[i * n + j];
            to += 1;
        }
    }
    (r1 - r0, cols, d)
}

pub fn column(m: usize, n: usize, a: &Vec<f64>, c: usize) -> (usize, usize, Vec<f64>) {
    let mut d = unspecified(m);
    let mut from = c;
    for i in 0..m {
        d[i] = a[from];
        from += n;
    }
    (m, 1, d)
}

pub fn permute_rows(m: usize, n: usize, a: &Vec<f64>, rows: &[usize]) -> (usize, usize, Vec<f64>) {
    let mut d = unspecified(rows.len() * n);
    let mut to = 0;
    for i in 0..rows.len() {
        assert!(rows[i] < m);
        for j in 0..n {
            d[to] = a[rows[i] * n + j];
            to += 1;
        }
    }
    (rows.len(), n, d)
}

pub fn permute_columns(m: usize, n: usize, a: &Vec<f64>, cols: &[usize]) -> (usize, usize, Vec<f64>) {
    let k = cols.len();
    let mut d = unspecified(m * k);
    let mut to = 0;
    let mut at = 0;
    for _ in 0..m {
        for j in 0..k {
            assert!(cols[j] < n);
            d[to] = a[at + cols[j]];
            to += 1;
        }
        at += n;
    }
    (m, k, d)
}

pub fn chosen(n: usize, keep: &dyn Fn(usize) -> bool) -> Vec<usize> {
    let mut list = Vec::with_capacity(n);
    for i in 0..n {
        if keep(i) {
            list.push(i);
        }
    }
    list
}

pub fn filter_rows(m: usize, n: usize, a: &Vec<f64>, keep: &dyn Fn(usize) -> bool) -> (usize, usize, Vec<f64>) {
    permute_rows(m, n, a, &chosen(m, keep))
}

pub fn filter_columns(m: usize, n: usize, a: &Vec<f64>, keep: &dyn Fn(usize) -> bool) -> (usize, usize, Vec<f64>) {
    permute_columns(m, n, a, &chosen(n, keep))
}

pub fn select_rows(m: usize, n: usize, a: &Vec<f64>, keep: &[bool]) -> (usize, usize, Vec<f64>) {
    let mut list = Vec::with_capacity(m);
    for i in 0..keep.len() {
        if keep[i] {
            list.push(i);
        }
    }
    permute_rows(m, n, a, &list)
}

pub fn select_columns(m: usize, n: usize, a: &Vec<f64>, keep: &[bool]) -> (usize, usize, Vec<f64>) {
    let mut list = Vec::with_capacity(n);
    for i in 0..keep.len() {
        if keep[i] {
            list.push(i);
        }
    }
    permute_columns(m, n, a, &list)
}

pub fn trace(m: usize, n: usize, a: &Vec<f64>) -> f64 {
    let k = if m <= n { m } else { n };
    let mut s = 0.0;
    let mut at = 0;
    for _ in 0..k {
        s = s + a[at];
        at += n + 1;
    }
    s
}

pub fn sum_squares_root(a: &Vec<f64>) -> f64 {
    let mut s = 0.0;
    for i in 0..a.len() {
        s = s + a[i] * a[i];
    }
    s.sqrt()
}

pub fn sum_abs(a: &Vec<f64>) -> f64 {
    let mut s = 0.0;
    for i in 0..a.len() {
        s = s + a[i].abs();
    }
    s
}

pub fn sum_power(a: &Vec<f64>, p: f64) -> f64 {
    let mut s = 0.0;
    for i in 0..a.len() {
        s = s + a[i].abs().powf(p);
    }
    s.powf(1.0 / p)
}

pub fn max_abs(a: &Vec<f64>) -> f64 {
    let mut best = a[0].abs();
    for i in 1..a.len() {
        let v = a[i].abs();
        if v > best {
            best = v;
        }
    }
    best
}

pub fn symmetric(m: usize, n: usize, a: &Vec<f64>) -> bool {
    if m != n {
        return false;
    }
    for i in 1..m {
        for j in 0..i {
            if !near(a[i * n + j], a[j * n + i]) {
                return false;
            }
        }
    }
    true
}

pub fn all_near(m: usize, n: usize, a: &Vec<f64>, p: usize, q: usize, b: &Vec<f64>) -> bool {
    if m != p || n != q {
        return false;
    }
    for i in 0..a.len() {
        if !near(a[i], b[i]) {
            return false;
        }
    }
    true
}
