//! Short vectors of a lattice, for lies that must stay small in many places.
use num_bigint::BigInt;

fn dot(a: &[BigInt], b: &[BigInt]) -> BigInt {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

fn nearest(a: &BigInt, b: &BigInt) -> BigInt {
    // b is positive
    let two: BigInt = a * 2 + b;
    let d: BigInt = b * 2;
    let q = &two / &d;
    if &q * &d > two {
        q - 1
    } else {
        q
    }
}

/// Reduces the basis in place, in whole numbers only.
pub fn reduce(b: &mut [Vec<BigInt>]) {
    let n = b.len();
    let one = BigInt::from(1);
    // d[i + 1] is the determinant of the first i + 1 vectors' Gram matrix
    let mut d = vec![one.clone(); n + 1];
    let mut l = vec![vec![BigInt::from(0); n]; n];
    let gram = |b: &[Vec<BigInt>], d: &mut Vec<BigInt>, l: &mut Vec<Vec<BigInt>>, k: usize| {
        for j in 0..=k {
            let mut u = dot(&b[k], &b[j]);
            for i in 0..j {
                u = (&d[i + 1] * u - &l[k][i] * &l[j][i]) / &d[i];
            }
            if j < k {
                l[k][j] = u;
            } else {
                d[k + 1] = u;
            }
        }
    };
    gram(b, &mut d, &mut l, 0);
    let mut k = 1;
    let mut known = 0;
    while k < n {
        if k > known {
            known = k;
            gram(b, &mut d, &mut l, k);
        }
        let size = |b: &mut [Vec<BigInt>], l: &mut Vec<Vec<BigInt>>, d: &[BigInt], j: usize| {
            let q = nearest(&l[k][j], &d[j + 1]);
            if q == BigInt::from(0) {
                return;
            }
            for x in 0..b[k].len() {
                let y = &b[j][x] * &q;
                b[k][x] -= y;
            }
            l[k][j] -= &q * &d[j + 1];
            for i in 0..j {
                let y = &l[j][i] * &q;
                l[k][i] -= y;
            }
        };
        size(b, &mut l, &d, k - 1);
        let left: BigInt = (&d[k + 1] * &d[k - 1] + &l[k][k - 1] * &l[k][k - 1]) * 4;
        if left < &d[k] * &d[k] * 3 {
            b.swap(k, k - 1);
            for j in 0..k - 1 {
                let x = std::mem::take(&mut l[k][j]);
                l[k][j] = std::mem::replace(&mut l[k - 1][j], x);
            }
            let m = l[k][k - 1].clone();
            let new = (&d[k - 1] * &d[k + 1] + &m * &m) / &d[k];
            for i in k + 1..=known {
                let t = l[i][k].clone();
                l[i][k] = (&d[k + 1] * &l[i][k - 1] - &m * &t) / &d[k];
                l[i][k - 1] = (&new * &t + &m * &l[i][k]) / &d[k + 1];
            }
            d[k] = new;
            k = (k - 1).max(1);
        } else {
            for j in (0..k - 1).rev() {
                size(b, &mut l, &d, j);
            }
            k += 1;
        }
    }
}
