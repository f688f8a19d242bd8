//! Exact integer plane geometry: the oracles. Nothing here is shared with the code under test.

pub type Pt = (i64, i64);
/// A polygon set: each polygon is the cyclic list of its vertices.
pub type Poly = Vec<Pt>;

pub fn cross(o: Pt, a: Pt, b: Pt) -> i64 { (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0) }
pub fn sgn(v: i64) -> i64 { v.signum() }

pub fn on_segment(a: Pt, b: Pt, p: Pt) -> bool {
    cross(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}

/// Closed segments share at least one point.
pub fn segments_meet(a: Pt, b: Pt, c: Pt, d: Pt) -> bool {
    let (d1, d2, d3, d4) = (sgn(cross(a, b, c)), sgn(cross(a, b, d)), sgn(cross(c, d, a)), sgn(cross(c, d, b)));
    if d1 * d2 < 0 && d3 * d4 < 0 { return true; }
    on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}

pub fn area2(p: &[Pt]) -> i64 {
    let n = p.len();
    (0..n).map(|i| { let (a, b) = (p[i], p[(i + 1) % n]); a.0 * b.1 - a.1 * b.0 }).sum()
}

/// Simple: at least 3 distinct vertices, non-adjacent edges disjoint, adjacent ones meet only in
/// their common vertex. Straight (180 degree) vertices are allowed.
pub fn is_simple(p: &[Pt]) -> bool {
    let n = p.len();
    if n < 3 { return false; }
    for i in 0..n { for j in i + 1..n { if p[i] == p[j] { return false; } } }
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        let c = p[(i + 2) % n];
        // adjacent edge must not fold back
        if on_segment(a, b, c) || on_segment(b, c, a) { return false; }
        for j in i + 2..n {
            if i == 0 && j == n - 1 { continue; }
            if segments_meet(a, b, p[j], p[(j + 1) % n]) { return false; }
        }
    }
    true
}

pub fn has_straight_vertex(p: &[Pt]) -> bool {
    let n = p.len();
    (0..n).any(|i| cross(p[i], p[(i + 1) % n], p[(i + 2) % n]) == 0)
}

/// Edges of two polygons are pairwise disjoint.
pub fn disjoint_boundaries(p: &[Pt], q: &[Pt]) -> bool {
    for i in 0..p.len() { for j in 0..q.len() {
        if segments_meet(p[i], p[(i + 1) % p.len()], q[j], q[(j + 1) % q.len()]) { return false; }
    } }
    true
}

/// The documented preconditions.
pub fn is_valid_set(ps: &[Poly]) -> bool {
    ps.iter().all(|p| is_simple(p)) && (0..ps.len()).all(|i| (i + 1..ps.len()).all(|j| disjoint_boundaries(&ps[i], &ps[j])))
}

/// Even-odd crossing test for a point not on the boundary. `scale`: coordinates of `q` are
/// multiplied by `scale` already, those of `p` are not.
pub fn crossings_odd(p: &[Pt], q: Pt, scale: i64) -> bool {
    let mut odd = false;
    let n = p.len();
    for i in 0..n {
        let a = (p[i].0 * scale, p[i].1 * scale);
        let b = (p[(i + 1) % n].0 * scale, p[(i + 1) % n].1 * scale);
        if (a.1 > q.1) != (b.1 > q.1) {
            // x of the edge at q.y compared with q.x
            let (lo, hi) = if a.1 < b.1 { (a, b) } else { (b, a) };
            if cross(lo, hi, q) > 0 { odd = !odd; }
        }
    }
    odd
}
pub fn inside_even_odd(ps: &[Poly], q: Pt, scale: i64) -> bool {
    ps.iter().fold(false, |acc, p| acc ^ crossings_odd(p, q, scale))
}

/// Twice the area of the even-odd region of a valid set, together with each polygon's nesting depth.
pub fn region(ps: &[Poly]) -> (i64, Vec<usize>) {
    // the polygons of each horizontal strip; a polygon outside the strip of a point cannot contain it
    let strips = if ps.len() < 500 { 1 } else { 2048 };
    let (y0, y1) = ps.iter().flatten().fold((i64::MAX, i64::MIN), |(a, b), q| (a.min(q.1), b.max(q.1)));
    let strip = |y: i64| ((y - y0) as i128 * strips as i128 / ((y1 - y0).max(0) as i128 + 1)) as usize;
    let mut of: Vec<Vec<usize>> = vec![vec![]; strips];
    for (j, p) in ps.iter().enumerate() {
        let (a, b) = p.iter().fold((i64::MAX, i64::MIN), |(a, b), q| (a.min(q.1), b.max(q.1)));
        for s in &mut of[strip(a)..=strip(b)] { s.push(j); }
    }
    let depth: Vec<usize> = (0..ps.len()).map(|i| of[strip(ps[i][0].1)].iter().filter(|&&j| j != i && crossings_odd(&ps[j], ps[i][0], 1)).count()).collect();
    let a = ps.iter().zip(&depth).map(|(p, d)| if d % 2 == 0 { area2(p).abs() } else { -area2(p).abs() }).sum();
    (a, depth)
}

/// Open interiors of two non-degenerate triangles (any orientation) intersect.
pub fn triangles_overlap(s: [Pt; 3], t: [Pt; 3]) -> bool {
    fn ccw(t: [Pt; 3]) -> [Pt; 3] { if cross(t[0], t[1], t[2]) < 0 { [t[0], t[2], t[1]] } else { t } }
    let (s, t) = (ccw(s), ccw(t));
    let separates = |u: &[Pt; 3], v: &[Pt; 3]| (0..3).any(|i| v.iter().all(|&q| cross(u[i], u[(i + 1) % 3], q) <= 0));
    !separates(&s, &t) && !separates(&t, &s)
}

/// The segment ab meets the open interior of triangle t (t non-degenerate).
pub fn segment_enters_triangle(a: Pt, b: Pt, t: [Pt; 3]) -> bool {
    let t = if cross(t[0], t[1], t[2]) < 0 { [t[0], t[2], t[1]] } else { t };
    // separated by a triangle edge line or by the line ab (or ab degenerate)
    for i in 0..3 {
        if cross(t[i], t[(i + 1) % 3], a) <= 0 && cross(t[i], t[(i + 1) % 3], b) <= 0 { return false; }
    }
    let d: Vec<i64> = t.iter().map(|&q| sgn(cross(a, b, q))).collect();
    if d.iter().all(|&x| x >= 0) || d.iter().all(|&x| x <= 0) { return false; }
    true
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn basics() {
        assert!(is_simple(&[(0, 0), (2, 0), (1, 1)]));
        assert!(!is_simple(&[(0, 0), (2, 2), (2, 0), (0, 2)]));
        assert!(is_simple(&[(0, 0), (1, 0), (2, 0), (0, 2)]));
        assert!(!is_simple(&[(0, 0), (2, 0), (1, 0), (0, 2)]));
        assert!(segment_enters_triangle((1, 0), (1, 5), [(0, 0), (2, 0), (1, 2)]));
        assert!(!segment_enters_triangle((0, 0), (2, 0), [(0, 0), (2, 0), (1, 2)]));
        assert!(!segment_enters_triangle((3, 0), (0, 3), [(0, 0), (2, 0), (0, 1)]));
        assert!(triangles_overlap([(0, 0), (4, 0), (0, 4)], [(1, 1), (2, 1), (1, 2)]));
        assert!(!triangles_overlap([(0, 0), (4, 0), (0, 4)], [(4, 0), (4, 4), (0, 4)]));
    }
}
