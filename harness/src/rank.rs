//! Algebraic relations between sampled values: reduced row echelon forms over a large prime field.

use num::{One, Zero};
use num_bigint::BigUint;
use std::collections::HashMap;
use std::sync::OnceLock;

use crate::field::inv_ref;

/// All monomials of degree at most two (or one, if there are many variables) in the given values, the constant first.
pub fn features(vars: &[BigUint], p: &BigUint) -> Vec<BigUint> {
    let mut row = vec![BigUint::one()];
    row.extend(vars.iter().cloned());
    if vars.len() <= 8 {
        for i in 0..vars.len() {
            for j in i..vars.len() {
                row.push(&vars[i] * &vars[j] % p);
            }
        }
    }
    row
}

/// Number of features of so many variables.
pub fn width(vars: usize) -> usize {
    1 + vars + if vars <= 8 { vars * (vars + 1) / 2 } else { 0 }
}

/// Reduced row echelon form without zero rows.
pub fn echelon(mut rows: Vec<Vec<BigUint>>, p: &BigUint) -> Vec<Vec<BigUint>> {
    let width = rows.first().map_or(0, |r| r.len());
    let mut rank = 0;
    for col in 0..width {
        let pivot = match (rank..rows.len()).find(|r| !rows[*r][col].is_zero()) {
            Some(r) => r,
            None => continue,
        };
        rows.swap(rank, pivot);
        let inv = inv_ref(&rows[rank][col], p);
        for x in rows[rank].iter_mut().skip(col) {
            *x = &*x * &inv % p;
        }
        let lead = rows[rank].clone();
        for (r, row) in rows.iter_mut().enumerate() {
            if r != rank && !row[col].is_zero() {
                let f = p - &row[col];
                for k in col..width {
                    if !lead[k].is_zero() {
                        row[k] = (&row[k] + &f * &lead[k]) % p;
                    }
                }
            }
        }
        rank += 1;
    }
    rows.truncate(rank);
    rows
}

/// One relation (coefficients of the features) that all rows satisfy, if there is any.
pub fn relation(rows: Vec<Vec<BigUint>>, p: &BigUint) -> Option<Vec<BigUint>> {
    let width = rows.first().map_or(0, |r| r.len());
    let e = echelon(rows, p);
    if e.len() == width {
        return None;
    }
    let lead: Vec<usize> = e.iter().map(|r| r.iter().position(|x| !x.is_zero()).unwrap()).collect();
    let free = (0..width).find(|c| !lead.contains(c)).unwrap();
    let mut v = vec![BigUint::zero(); width];
    v[free] = BigUint::one();
    for (r, l) in e.iter().zip(&lead) {
        v[*l] = (p - &r[free]) % p;
    }
    Some(v)
}

pub fn describe(rel: &[BigUint], vars: usize, name: &dyn Fn(usize) -> String) -> String {
    let mut names = vec!["1".to_string()];
    names.extend((0..vars).map(name));
    if vars <= 8 {
        for i in 0..vars {
            for j in i..vars {
                names.push(format!("{}*{}", name(i), name(j)));
            }
        }
    }
    let terms: Vec<String> = rel.iter().zip(&names).filter(|(c, _)| !c.is_zero()).take(8).map(|(c, n)| format!("0x{:x}*{}", c, n)).collect();
    format!("{} = 0", terms.join(" + "))
}

/// A prime divisor of 2^61 - 2.
pub const ORDER: u64 = 1321;

/// Does `log` apply to this field?
pub fn has_log(p: &BigUint) -> bool {
    *p == (BigUint::one() << 61) - 1u32
}

/// The discrete logarithm modulo `ORDER` of a nonzero number modulo 2^61 - 1.
pub fn log(x: &BigUint) -> Option<u64> {
    static TABLE: OnceLock<(BigUint, BigUint, HashMap<BigUint, u64>)> = OnceLock::new();
    let (p, e, table) = TABLE.get_or_init(|| {
        let p = (BigUint::one() << 61) - 1u32;
        let e = (&p - 1u32) / ORDER;
        let base = (2u32..).map(|g| BigUint::from(g).modpow(&e, &p)).find(|h| !h.is_one()).unwrap();
        let mut x = BigUint::one();
        let mut table = HashMap::new();
        for k in 0..ORDER {
            table.insert(x.clone(), k);
            x = x * &base % &p;
        }
        assert!(x.is_one() && table.len() == ORDER as usize);
        (p, e, table)
    });
    table.get(&x.modpow(e, p)).copied()
}

/// A one and the logarithms of the values, if none of them is zero: linear relations of such rows modulo `ORDER` are
/// multiplicative relations of the values.
pub fn logs(vars: &[BigUint]) -> Option<Vec<BigUint>> {
    std::iter::once(Some(1)).chain(vars.iter().map(log)).map(|k| k.map(BigUint::from)).collect()
}

pub fn describe_logs(rel: &[BigUint], name: &dyn Fn(usize) -> String) -> String {
    let terms: Vec<String> = rel.iter().enumerate().skip(1).filter(|(_, c)| !c.is_zero()).take(8).map(|(i, c)| format!("{}^{}", name(i - 1), c)).collect();
    format!("{} is constant up to {}-th powers", terms.join(" * "), ORDER)
}

/// Are the bits of a uniform member almost uniform?
pub fn fair_bits(p: &BigUint) -> bool {
    (p & (p + 1u32)).is_zero() && p.bits() > 60 && p.bits() < 130
}

/// The low bits.
pub fn bits(x: &BigUint, size: usize) -> Vec<bool> {
    let b = x.to_bytes_le();
    (0..size).map(|k| b.get(k / 8).map_or(false, |b| b >> (k % 8) & 1 == 1)).collect()
}

/// A nonempty set of columns whose sum modulo two is the same in all rows, if there is any.
pub fn bit_relation(rows: &[Vec<bool>]) -> Option<Vec<usize>> {
    let width = rows.first()?.len();
    // differences to the first row leave no constant
    let words = width / 64 + 1;
    let mut m: Vec<Vec<u64>> = rows[1..]
        .iter()
        .map(|r| {
            let mut w = vec![0u64; words];
            (0..width).filter(|k| r[*k] != rows[0][*k]).for_each(|k| w[k / 64] |= 1 << (k % 64));
            w
        })
        .collect();
    let bit = |w: &Vec<u64>, k: usize| w[k / 64] >> (k % 64) & 1 == 1;
    let mut lead = vec![];
    let mut free = None;
    for col in 0..width {
        let rank = lead.len();
        let pivot = match (rank..m.len()).find(|r| bit(&m[*r], col)) {
            Some(r) => r,
            None => {
                free = free.or(Some(col));
                continue;
            }
        };
        m.swap(rank, pivot);
        let row = m[rank].clone();
        for (r, w) in m.iter_mut().enumerate() {
            if r != rank && bit(w, col) {
                w.iter_mut().zip(&row).for_each(|(a, b)| *a ^= b);
            }
        }
        lead.push(col);
    }
    let free = free?;
    let mut set: Vec<usize> = lead.iter().enumerate().filter(|(r, _)| bit(&m[*r], free)).map(|(_, c)| *c).collect();
    set.push(free);
    Some(set)
}
