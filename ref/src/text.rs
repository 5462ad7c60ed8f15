//! A matrix from a text of comma-separated values: one row per line, one element per field.

/// whether the file can be opened
pub fn opens() -> bool {
    true
}

pub fn lines() -> usize {
    0
}

/// whether line i can be read
pub fn readable(_i: usize) -> bool {
    true
}

/// number of fields of line i
pub fn fields(_i: usize) -> usize {
    1
}

/// value of field j of line i, blanks around it removed
pub fn value(_i: usize, _j: usize) -> f64 {
    0.0
}

pub fn read_csv() -> (usize, usize, Vec<f64>) {
    let mut d = Vec::new();
    let mut rows = 0;
    let mut cols = None;
    assert!(opens());
    for i in 0..lines() {
        let before = d.len();
        assert!(readable(i));
        for j in 0..fields(i) {
            d.push(value(i, j));
        }
        let k = d.len() - before;
        if cols == None {
            cols = Some(k);
        } else {
            assert!(cols.unwrap() == k);
        }
        rows += 1;
    }
    assert!(cols != None);
    assert!(rows * cols.unwrap() == d.len());
    assert!(rows > 0 && cols.unwrap() > 0);
    (rows, cols.unwrap(), d)
}
