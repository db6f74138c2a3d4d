//! Statistical tests with an explicit, tiny false-alarm bound.

/// Largest probability with which a single statistical judgement may fail on a correct tree.
pub const ALPHA: f64 = 1e-10;

fn ln_gamma(x: f64) -> f64 {
    const C: [f64; 9] = [
        0.99999999999980993,
        676.5203681218851,
        -1259.1392167224028,
        771.32342877765313,
        -176.61502916214059,
        12.507343278686905,
        -0.13857109526572012,
        9.9843695780195716e-6,
        1.5056327351493116e-7,
    ];
    let x = x - 1.0;
    let mut a = C[0];
    for (i, c) in C.iter().enumerate().skip(1) {
        a += c / (x + i as f64);
    }
    let t = x + 7.5;
    0.5 * (2.0 * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}

/// Upper tail of the chi-square distribution with `k` degrees of freedom.
pub fn chi2_sf(x: f64, k: f64) -> f64 {
    if x <= 0.0 {
        return 1.0;
    }
    let (a, x) = (k / 2.0, x / 2.0);
    let lead = (a * x.ln() - x - ln_gamma(a)).exp();
    if x < a + 1.0 {
        let (mut sum, mut term, mut n) = (1.0 / a, 1.0 / a, a);
        for _ in 0..100_000 {
            n += 1.0;
            term *= x / n;
            sum += term;
            if term < sum * 1e-16 {
                break;
            }
        }
        (1.0 - sum * lead).max(0.0)
    } else {
        let mut b = x + 1.0 - a;
        let mut c = 1e300;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..100_000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < 1e-300 {
                d = 1e-300;
            }
            c = b + an / c;
            if c.abs() < 1e-300 {
                c = 1e-300;
            }
            d = 1.0 / d;
            let del = d * c;
            h *= del;
            if (del - 1.0).abs() < 1e-15 {
                break;
            }
        }
        lead * h
    }
}

/// Chi-square goodness of fit of counts against equal probabilities. `None` if consistent, else a description.
pub fn uniform(counts: &[u64], what: &str) -> Option<String> {
    let n: u64 = counts.iter().sum();
    let k = counts.len();
    if k < 2 || n == 0 {
        return None;
    }
    let e = n as f64 / k as f64;
    let x: f64 = counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
    let p = chi2_sf(x, (k - 1) as f64);
    if p < ALPHA {
        let shown: Vec<_> = counts.iter().take(24).collect();
        Some(format!("{} is not uniform over {} classes (n={}, chi2={:.1}, p={:.1e}; counts {:?})", what, k, n, x, p, shown))
    } else {
        None
    }
}

/// Chi-square test that two histograms come from the same distribution.
pub fn same(a: &[u64], b: &[u64], what: &str) -> Option<String> {
    let (na, nb): (u64, u64) = (a.iter().sum(), b.iter().sum());
    if na == 0 || nb == 0 {
        return None;
    }
    let (ra, rb) = ((nb as f64 / na as f64).sqrt(), (na as f64 / nb as f64).sqrt());
    let mut x = 0.0;
    let mut k = 0usize;
    for (i, j) in a.iter().zip(b) {
        if i + j > 0 {
            x += (ra * *i as f64 - rb * *j as f64).powi(2) / (*i + *j) as f64;
            k += 1;
        }
    }
    if k < 2 {
        return None;
    }
    let p = chi2_sf(x, (k - 1) as f64);
    if p < ALPHA {
        let (sa, sb): (Vec<_>, Vec<_>) = (a.iter().take(24).collect(), b.iter().take(24).collect());
        Some(format!("{}: distributions differ (chi2={:.1}, p={:.1e}; {:?} vs {:?})", what, x, p, sa, sb))
    } else {
        None
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn sf() {
        // reference values from scipy.stats.chi2.sf
        for (x, k, want) in [(3.84, 1.0, 0.0500), (20.0, 10.0, 0.02925), (10.0, 10.0, 0.44049), (100.0, 10.0, 5.4497e-17), (150.0, 100.0, 9.0395e-4)] {
            let got = super::chi2_sf(x, k);
            assert!((got / want - 1.0).abs() < 2e-3, "{} {} {} {}", x, k, got, want);
        }
    }
}
