//! Exact planar geometry on integer lattices: the reference the hulls and polygons are compared with.

pub type Q = (i64, i64);

/// Positive when `a -> b -> c` turns left (counter-clockwise).
pub fn orient(a: Q, b: Q, c: Q) -> i128 {
    (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128
}

/// The strict convex hull (no collinear vertices), clockwise, starting at the lexicographically smallest point.
/// `None` when all the points are collinear.
pub fn hull(points: &[Q]) -> Option<Vec<Q>> {
    let mut p = points.to_vec();
    p.sort_unstable();
    p.dedup();
    let chain = |it: &mut dyn Iterator<Item = Q>| {
        let mut out: Vec<Q> = Vec::new();
        for c in it {
            while out.len() > 1 && orient(out[out.len() - 2], out[out.len() - 1], c) >= 0 {
                out.pop();
            }
            out.push(c);
        }
        out
    };
    let mut upper = chain(&mut p.iter().copied());
    let mut lower = chain(&mut p.iter().rev().copied());
    upper.pop();
    lower.pop();
    upper.extend(lower);
    (upper.len() > 2).then_some(upper)
}

/// Whether `p` lies on the closed segment `a b`.
pub fn on_segment(a: Q, b: Q, p: Q) -> bool {
    orient(a, b, p) == 0
        && (a.0.min(b.0)..=a.0.max(b.0)).contains(&p.0)
        && (a.1.min(b.1)..=a.1.max(b.1)).contains(&p.1)
}

/// Even-odd rule for a point which is not on the boundary of the polygon.
pub fn inside(polygon: &[Q], p: Q) -> bool {
    let mut odd = false;
    for i in 0..polygon.len() {
        let (a, b) = (polygon[i], polygon[(i + 1) % polygon.len()]);
        if (a.1 > p.1) != (b.1 > p.1) {
            // Where the edge crosses the horizontal line through p, compared with p without dividing
            let left = (p.0 - a.0) as i128 * (b.1 - a.1) as i128;
            let right = (b.0 - a.0) as i128 * (p.1 - a.1) as i128;
            if (b.1 > a.1 && left < right) || (b.1 < a.1 && left > right) {
                odd = !odd;
            }
        }
    }
    odd
}
