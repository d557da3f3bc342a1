//! When natural frequencies count as distinct, and how far computed ones may be off.
/// Neighbouring eigenvalues differ by this much, relatively.
const GAP: f64 = 2e-3;

pub fn separated(v: &[f64]) -> bool {
    v[0] > 0.0 && v.iter().all(|x| x.is_finite()) && v[v.len() - 1] < 1e9 * v[0] && v.windows(2).all(|w| w[1] - w[0] > GAP * w[1])
}

/// How far a computed eigenvalue may be off: the searcher accepts one only when the count of
/// eigenvalues changes within 1e-4 of it.
pub fn slack(v: &[f64], i: usize) -> f64 {
    1.2e-4 * v[i]
}

/// How far the overlap of a computed vector with the eigenvector may stay below one: contributions
/// of other eigenvectors show in the Rayleigh quotient in proportion to their distance.
#[allow(dead_code)]
pub fn stray(v: &[f64], i: usize) -> f64 {
    let mut gap = f64::INFINITY;
    if i > 0 {
        gap = gap.min((v[i] - v[i - 1]) / v[i]);
    }
    if i + 1 < v.len() {
        gap = gap.min((v[i + 1] - v[i]) / v[i]);
    }
    (5e-4 / gap + 1e-8).min(0.03)
}
