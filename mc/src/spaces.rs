//! The input spaces: exhaustive enumerations of polygon sets on small grids, parameterised families
//! of large polygons, coordinate transforms, and the default insertion orders.

use crate::geom::*;

/// Every simple polygon with `n` vertices on the grid `w` x `h`, one per rotation of the vertex list
/// (the list starts at its smallest grid point), both directions, straight vertices included.
pub fn grid_polys(w: i64, h: i64, n: usize) -> Vec<Poly> {
    let pts: Vec<Pt> = (0..w * h).map(|i| (i % w, i / w)).collect();
    let mut out = vec![];
    fn rec(pts: &[Pt], cur: &mut Vec<usize>, n: usize, out: &mut Vec<Poly>) {
        if cur.len() == n {
            let p: Poly = cur.iter().map(|&i| pts[i]).collect();
            if is_simple(&p) { out.push(p); }
            return;
        }
        for i in cur[0] + 1..pts.len() {
            if cur.contains(&i) { continue; }
            let (a, b, m) = (pts[*cur.last().unwrap()], pts[i], cur.len());
            if (0..m.saturating_sub(2)).any(|j| segments_meet(pts[cur[j]], pts[cur[j + 1]], a, b)) { continue; }
            if m >= 2 { let z = pts[cur[m - 2]]; if on_segment(z, a, b) || on_segment(a, b, z) { continue; } }
            cur.push(i);
            rec(pts, cur, n, out);
            cur.pop();
        }
    }
    for s in 0..pts.len() { rec(&pts, &mut vec![s], n, &mut out); }
    out
}

/// One direction only (counterclockwise).
pub fn ccw_only(v: Vec<Poly>) -> Vec<Poly> { v.into_iter().filter(|p| area2(p) > 0).collect() }

pub fn singles(v: Vec<Poly>) -> Vec<Vec<Poly>> { v.into_iter().map(|p| vec![p]).collect() }

/// No three vertices of the set on a line.
pub fn general_position(ps: &[Poly]) -> bool {
    let v: Vec<Pt> = ps.iter().flatten().copied().collect();
    for i in 0..v.len() { for j in i + 1..v.len() { for k in j + 1..v.len() { if cross(v[i], v[j], v[k]) == 0 { return false; } } } }
    true
}

/// All valid pairs out of two lists; `nested`: Some(true) only one-inside-the-other, Some(false) only
/// side by side, None both.
pub fn pairs(a: &[Poly], b: &[Poly], nested: Option<bool>) -> Vec<Vec<Poly>> {
    let mut out = vec![];
    for p in a { for q in b {
        if !disjoint_boundaries(p, q) { continue; }
        let n = crossings_odd(p, q[0], 1) || crossings_odd(q, p[0], 1);
        if nested.map_or(true, |w| w == n) { out.push(vec![p.clone(), q.clone()]); }
    } }
    out
}

pub fn shift(p: &[Pt], dx: i64, dy: i64) -> Poly { p.iter().map(|q| (q.0 + dx, q.1 + dy)).collect() }
pub fn shift_all(ps: &[Poly], dx: i64, dy: i64) -> Vec<Poly> { ps.iter().map(|p| shift(p, dx, dy)).collect() }
pub fn map_all(ps: &[Poly], f: impl Fn(Pt) -> Pt) -> Vec<Poly> { ps.iter().map(|p| p.iter().map(|&q| f(q)).collect()).collect() }
pub fn reversed(p: &[Pt]) -> Poly { p.iter().rev().copied().collect() }
pub fn rotated(p: &[Pt], k: usize) -> Poly { (0..p.len()).map(|i| p[(i + k) % p.len()]).collect() }

/// The eight symmetries of the square.
pub fn dihedral(ps: &[Poly], k: usize) -> Vec<Poly> {
    map_all(ps, |(x, y)| match k { 0 => (x, y), 1 => (-y, x), 2 => (-x, -y), 3 => (y, -x), 4 => (-x, y), 5 => (x, -y), 6 => (y, x), _ => (-y, -x) })
}
/// Shear that makes all y coordinates of a small grid distinct (`k` larger than the x range).
pub fn shear(ps: &[Poly], k: i64) -> Vec<Poly> { map_all(ps, |(x, y)| (x, y * k + x)) }

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for p in permutations(n - 1) { for i in (0..n).rev() { let mut q = p.clone(); q.insert(i, n - 1); out.push(q); } }
    out.sort();
    out
}

// ---------------------------------------------------------------- default insertion orders

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order { Identity, Reverse, EvenOdd, Stride(usize), Inward, Outward, Scrambled, Mix(u64) }
pub const ORDERS: [Order; 7] = [Order::Identity, Order::Reverse, Order::EvenOdd, Order::Stride(3), Order::Inward, Order::Outward, Order::Stride(7)];

fn order_perm(o: Order, n: usize) -> Vec<usize> {
    match o {
        Order::Identity => (0..n).collect(),
        Order::Reverse => (0..n).rev().collect(),
        Order::EvenOdd => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        Order::Stride(s) => (0..s.min(n)).flat_map(|r| (r..n).step_by(s)).collect(),
        Order::Inward => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        // one fixed thorough mix, for polygons too long for orders that degenerate to quadratic time
        Order::Mix(k) => { let mut v: Vec<usize> = (0..n).collect(); v.sort_by_key(|&i| { let mut z = (i as u64 + 1 + (k << 40)).wrapping_mul(0x9E3779B97F4A7C15); z = (z ^ z >> 30).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ z >> 27).wrapping_mul(0x94D049BB133111EB); z ^ z >> 31 }); v }
        Order::Scrambled => { let mut v: Vec<usize> = (0..n).collect(); v.sort_by_key(|&i| { let mut z = (i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15); z = (z ^ z >> 30).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ z >> 27).wrapping_mul(0x94D049BB133111EB); z ^ z >> 31 }); v }
        Order::Outward => { let mut v = order_perm(Order::Inward, n); v.reverse(); v }
    }
}
/// Choices (in terms of the patched shuffle) that produce the order for polygons of these sizes.
pub fn base_for(o: Order, sizes: &[usize]) -> Vec<u32> {
    let mut out = vec![];
    for &n in sizes {
        let want = order_perm(o, n);
        let mut cur: Vec<usize> = (0..n).collect();
        let mut at = cur.clone();
        for i in (1..n).rev() {
            let j = at[want[i]];
            out.push((i - j) as u32);
            at.swap(cur[i], cur[j]);
            cur.swap(i, j);
        }
    }
    out
}

// ---------------------------------------------------------------- families

/// Points on a parabola: one long chain opposite a single edge.
pub fn bowl(n: i64) -> Poly { (0..n).map(|i| (i * i, 4 * i)).collect() }
/// Same chain bulging inwards: every inner vertex reflex, closed by an apex far outside.
pub fn reflex_bowl(n: i64) -> Poly {
    let m = n - 1;
    let mut p: Poly = (0..m).map(|i| { let k = 2 * i - (m - 1); (k * k, 8 * i) }).collect();
    p.push((-4 * m * m, 4 * (m - 1) + 1));
    p
}
/// One chain of reflex vertices only, between its first vertex and an apex below it.
pub fn hook(n: i64) -> Poly {
    let m = n - 1;
    let mut p: Poly = (0..m).rev().map(|i| (i * (m - 1 - i), 4 * i)).collect();
    p.push((4 * m * m, -1));
    p
}
/// Convex, both chains long.
pub fn lens(n: i64) -> Poly {
    let h = n / 2;
    let mut p: Poly = (0..=h).map(|i| (-(i * (h - i)), 4 * i)).collect();
    p.extend((1..n - h).rev().map(|i| (i * (n - h - i) + i, (4 * i * h) / (n - h) + 1)));
    p
}
/// A comb: k teeth upward, all tips at the same height.
pub fn comb(k: i64) -> Poly {
    let mut p = vec![(0, 0), (4 * k - 2, 0)];
    for t in (0..k).rev() { p.push((4 * t + 1, 12)); if t > 0 { p.push((4 * t - 1, 3)); } }
    p
}
/// Teeth of growing height and gaps of growing depth.
pub fn ragged_comb(k: i64) -> Poly {
    let mut p = vec![(0, -3 * k), (6 * k, -3 * k - 1)];
    for t in (0..k).rev() { p.push((6 * t + 3, 10 + 5 * ((t * 7) % k))); if t > 0 { p.push((6 * t, 2 - 2 * ((t * 5) % k))); } }
    p
}
/// Rectangular comb (battlement): many equal y and x.
pub fn battlement(k: i64) -> Poly {
    let mut p = vec![(0, 0), (2 * (2 * k - 1), 0)];
    for t in (0..k).rev() { p.extend([(2 * (2 * t + 1), 4), (2 * (2 * t), 4)]); if t > 0 { p.extend([(2 * (2 * t), 2), (2 * (2 * t - 1), 2)]); } }
    p
}
/// Staircase.
pub fn stairs(k: i64) -> Poly {
    let mut p = vec![(0, 0)];
    for t in 0..k { p.push((k - t, t)); p.push((k - t, t + 1)); }
    p[1].1 = 0;
    p.push((0, k));
    p.dedup();
    p
}
/// Zigzag ribbon.
pub fn ribbon(k: i64) -> Poly {
    let z = |i: i64| if i % 2 == 0 { 0 } else { 7 };
    let mut p: Poly = (0..k).map(|i| (6 * i, z(i))).collect();
    p.extend((0..k).rev().map(|i| (6 * i + 1, z(i) + 5)));
    p
}
/// Rectilinear spiral with k turns.
pub fn spiral(k: i64) -> Poly {
    // centre line corners, then offset on both sides
    let mut outer = vec![]; let mut inner = vec![];
    let s = 4;
    let (mut x, mut y) = (0i64, 0i64);
    let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    for t in 0..k {
        let d = dirs[(t % 4) as usize];
        let len = s * (t / 2 + 1) + if t == 0 { 2 } else { 0 };
        let (px, py) = (x, y);
        x += d.0 * len; y += d.1 * len;
        if t == 0 { outer.push((px, py)); inner.push((px, py + 1)); }
        // corner: outer side is right of the direction, inner side left
        let nd = dirs[((t + 1) % 4) as usize];
        if t + 1 < k { outer.push((x, y)); inner.push((x - d.0 + nd.0, y - d.1 + nd.1)); }
        else { outer.push((x, y)); inner.push((x + nd.0, y + nd.1)); }
    }
    inner.reverse();
    outer.extend(inner);
    outer
}
/// Star with k points.
pub fn star(k: i64) -> Poly {
    // exact integer directions on a square ring, alternating radii
    let ring: Poly = { let m = k.max(4); let per = 2 * m; let mut r = vec![];
        for i in 0..per { r.push((i - m, -m)); } for i in 0..per { r.push((m, i - m)); } for i in 0..per { r.push((m - i, m)); } for i in 0..per { r.push((-m, m - i)); } r };
    let n = ring.len() as i64;
    (0..2 * k).map(|i| { let d = ring[((i * n) / (2 * k)) as usize]; if i % 2 == 0 { (d.0 * 3, d.1 * 3) } else { d } }).collect()
}
/// A rectangle whose sides are subdivided by straight vertices.
pub fn subdivided(k: i64) -> Poly {
    let mut p = vec![];
    for i in 0..k { p.push((i, 0)); }
    for i in 0..k { p.push((k, i)); }
    for i in 0..k { p.push((k - i, k)); }
    for i in 0..k { p.push((0, k - i)); }
    p
}
/// y-monotone polygon whose left and right boundary alternate in and out.
pub fn caterpillar(k: i64) -> Poly {
    let mut p: Poly = vec![(0, -1)];
    p.extend((0..k).map(|i| (4 + if i % 2 == 0 { 3 } else { 0 } + (i % 5), 3 * i)));
    p.push((0, 3 * k));
    p.extend((0..k).rev().map(|i| (-4 - if i % 3 == 0 { 2 } else { 0 } - (i % 4), 3 * i + 1)));
    p
}
/// Square frame cut open (C shape), nested k times into one polygon: deep backtracking.
pub fn teeth_both(k: i64) -> Poly {
    // interlocking teeth from top and bottom
    let mut p: Poly = vec![(0, 0)];
    for t in 0..k { p.extend([(4 * t + 1, 0), (4 * t + 2, 8), (4 * t + 3, 0)]); }
    p.push((4 * k, 0));
    p.push((4 * k, 12));
    for t in (0..k).rev() { p.extend([(4 * t + 1, 12), (4 * t, 2)]); if t > 0 { p.push((4 * t - 1, 12)); } }
    // the last tooth of the top would touch the left edge: shift the corner
    let l = p.len() - 1; p[l] = (-1, 12);
    p[0] = (-1, 0);
    p
}

/// A horn: two concave sides that meet in an apex, getting `q` times further apart from step to step,
/// with a vertex at every `up`-th step of one side and every `low`-th of the other. Cutting it up has
/// to change sides all the time.
pub fn horn(k: i64, q: i64, up: i64, low: i64) -> Poly { horn_steps(k, up, low).into_iter().map(|(x, i)| (x, i.signum() * q.pow(i.unsigned_abs() as u32))).collect() }
/// The same with the step number (from 1, negative on the lower side) in place of y.
pub fn horn_steps(k: i64, up: i64, low: i64) -> Poly {
    let at = |s: i64| (0..=k).filter(move |i| i % s == 0 || *i == k);
    let mut p: Poly = at(low).map(|i| (2 * (k - i), -(i + 1))).collect();
    p.reverse();
    p.push((2 * k + 2, 0));
    p.extend(at(up).map(|i| (2 * (k - i), i + 1)));
    p
}
pub const HORNS: [(i64, i64, i64); 5] = [(3, 2, 1), (2, 3, 1), (3, 1, 2), (2, 1, 3), (3, 1, 1)];

fn named(name: &str, k: i64, p: Poly) -> (String, Vec<Poly>) { (format!("{name}({k})"), vec![p]) }

/// Large single polygons, each checked to be valid.
pub fn large_polygons(ks: &[i64]) -> Vec<(String, Vec<Poly>)> {
    let mut v = vec![];
    for &k in ks {
        v.push(named("bowl", k, bowl(k)));
        v.push(named("reflex_bowl", k, reflex_bowl(k)));
        v.push(named("lens", k, lens(k)));
        v.push(named("hook", k, hook(k)));
        v.push(named("comb", k / 2, comb(k / 2)));
        v.push(named("ragged_comb", k / 2, ragged_comb(k / 2)));
        v.push(named("battlement", k / 4 + 1, battlement(k / 4 + 1)));
        v.push(named("stairs", k / 2, stairs(k / 2)));
        v.push(named("ribbon", k / 2, ribbon(k / 2)));
        v.push(named("spiral", k / 2, spiral(k / 2)));
        v.push(named("star", k / 2, star(k / 2)));
        v.push(named("subdivided", k / 4, subdivided(k / 4)));
        v.push(named("caterpillar", k / 2, caterpillar(k / 2)));
        v.push(named("teeth_both", k / 6 + 1, teeth_both(k / 6 + 1)));
        // (coordinates stay small enough for exact products)
        for (q, up, low) in HORNS { let k = (k / 2 + 1).min(if q == 2 { 14 } else { 9 }); v.push(named(&format!("horn {q} {up} {low}"), k, horn(k, q, up, low))); }
    }
    for (n, p) in &v { assert!(is_valid_set(p), "family member {n} is not a valid polygon: {p:?}"); }
    v
}

/// Polygons with long fans, long stacks and long chains, for the output side.
pub fn long_cases(n: i64) -> Vec<Vec<Poly>> {
    let mut v = vec![];
    for k in [0, 2, 4, 5] { for p in [bowl(n), hook(n), lens(n)] { v.push(dihedral(&[p], k)); } }
    for p in [reflex_bowl(n), comb(n / 2), ribbon(n / 2), caterpillar(n / 2), stairs(n / 2)] { v.push(vec![p.clone()]); v.push(dihedral(&[p], 5)); }
    v
}

/// Very long polygons (the constructions are validated at smaller sizes by `large_polygons`).
pub fn huge_polygons(n: i64) -> Vec<(String, Vec<Poly>)> {
    let mut v = vec![named("reflex_bowl", n, reflex_bowl(n))];
    for d in [0, 2, 4, 5] { v.push((format!("hook({n}) {d}"), dihedral(&[hook(n)], d))); v.push((format!("bowl({n}) {d}"), dihedral(&[bowl(n)], d))); }
    v.extend([named("lens", n, lens(n)), named("comb", n / 2, comb(n / 2)), named("stairs", n / 2, stairs(n / 2)), named("ribbon", n / 2, ribbon(n / 2)), named("spiral", n / 2, spiral(n / 2)), named("teeth_both", n / 6, teeth_both(n / 6))]);
    v
}

/// Nearly degenerate in floating point: an area preserving integer map with large entries.
pub fn sliver(ps: &[Poly]) -> Vec<Poly> { map_all(ps, |(x, y)| (46368 * x + 28657 * y, 75025 * x + 46368 * y)) }
/// The same, as fine as 53 bits allow: products near 2^50 that differ by a few units.
pub fn sliver_fine(ps: &[Poly]) -> Vec<Poly> { map_all(ps, |(x, y)| (9227465 * x + 5702887 * y, 14930352 * x + 9227465 * y)) }
pub fn sliver_flat(ps: &[Poly]) -> Vec<Poly> { map_all(ps, |(x, y)| (75025 * x + 121393 * y, x * 28657 + y * 46368)) }

/// Every nesting structure of `k` polygons in which no polygon comes before the one around it.
pub fn forests(k: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..k { out = out.into_iter().flat_map(|f| std::iter::once(usize::MAX).chain(0..i).map(move |p| { let mut g = f.clone(); g.push(p); g })).collect(); }
    out
}
/// Polygons with the given parents; `shape` picks boxes, hexagons or a mix with slanted sides.
pub fn forest_polys(parent: &[usize], shape: usize) -> Vec<Poly> {
    let k = parent.len();
    let mut width = vec![0i64; k];
    for i in (0..k).rev() { let w: i64 = (i + 1..k).filter(|&j| parent[j] == i).map(|j| width[j] + 6).sum(); width[i] = w.max(6) + 6; }
    let mut x0 = vec![0i64; k];
    let mut used = vec![0i64; k + 1];
    let mut depth = vec![0i64; k];
    let mut out = vec![];
    for i in 0..k {
        let (slot, base, d) = if parent[i] == usize::MAX { (k, 0, 0) } else { (parent[i], x0[parent[i]] + 6, depth[parent[i]] + 1) };
        x0[i] = base + used[slot]; used[slot] += width[i] + 6; depth[i] = d;
        let (a, b, lo, hi) = (x0[i], x0[i] + width[i], 10 * d, 200 - 10 * d);
        let s = if shape == 2 { i % 3 } else { shape };
        out.push(match s { 0 => square(a, lo, b, hi), 1 => vec![(a + 1, lo), (b - 1, lo + 2), (b + 1, 100 + i as i64), (b - 2, hi - 1), (a + 2, hi - 3), (a - 1, 90 - i as i64)], _ => vec![(a, lo + 1), (b, lo - 2), (b - 1, hi), (a + 1, hi - 2)] });
    }
    out
}

pub fn square(x0: i64, y0: i64, x1: i64, y1: i64) -> Poly { vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)] }
pub fn diamond(cx: i64, cy: i64, r: i64) -> Poly { vec![(cx, cy - r), (cx + r, cy), (cx, cy + r), (cx - r, cy)] }
pub fn tri_up(cx: i64, cy: i64, r: i64) -> Poly { vec![(cx - r, cy - r), (cx + r, cy - r), (cx, cy + r)] }

/// Multi-polygon arrangements: nested rings, grids of holes, islands in holes, ...
pub fn arrangements(big: bool) -> Vec<(String, Vec<Poly>)> {
    let mut v: Vec<(String, Vec<Poly>)> = vec![];
    for d in 1..=5 {
        v.push((format!("nested_squares({d})"), (0..d).map(|i| square(-10 * (d - i), -10 * (d - i), 10 * (d - i), 10 * (d - i))).collect()));
        v.push((format!("nested_diamonds({d})"), (0..d).map(|i| diamond(0, 0, 10 * (d - i))).collect()));
        v.push((format!("nested_triangles({d})"), (0..d).map(|i| { let r = 6i64.pow(0) * 8 * (1 << (2 * (d - i))); tri_up(0, r / 4, r) }).collect()));
        v.push((format!("nested_mixed({d})"), (0..d).map(|i| { let r = 4 * 3i64.pow((d - i) as u32); if i % 2 == 0 { square(-r, -r, r, r) } else { diamond(0, 0, r) } }).collect()));
    }
    for (c, r) in [(1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2), (3, 3)] {
        let outer = square(0, 0, 10 * c, 10 * r);
        for shape in 0..3 {
            let mut ps = vec![outer.clone()];
            for i in 0..c { for j in 0..r {
                let (x, y) = (10 * i + 5, 10 * j + 5);
                ps.push(match shape { 0 => square(x - 2, y - 2, x + 2, y + 2), 1 => diamond(x, y, 3), _ => tri_up(x, y, 2) });
            } }
            v.push((format!("holes({c}x{r},{shape})"), ps));
        }
        v.push((format!("separate({c}x{r})"), (0..c * r).map(|i| { let (x, y) = (10 * (i % c), 10 * (i / c)); if i % 2 == 0 { square(x, y, x + 6, y + 6) } else { tri_up(x + 3, y + 3, 3) } }).collect()));
    }
    // islands inside holes, siblings inside one hole
    v.push(("island_pair".into(), vec![square(0, 0, 40, 40), square(5, 5, 35, 35), diamond(12, 20, 5), diamond(27, 20, 5)]));
    v.push(("island_with_hole".into(), vec![square(0, 0, 40, 40), square(5, 5, 35, 35), square(10, 10, 30, 30), diamond(20, 20, 5)]));
    v.push(("two_rings".into(), vec![square(0, 0, 20, 20), square(5, 5, 15, 15), square(30, 0, 50, 20), square(35, 5, 45, 15)]));
    v.push(("rings_stacked".into(), vec![square(0, 0, 20, 20), diamond(10, 10, 5), square(0, 30, 20, 50), diamond(10, 40, 5)]));
    v.push(("hole_in_comb".into(), vec![comb(4), tri_up(9, 2, 1)]));
    v.push(("poly_in_notch".into(), vec![map1(&battlement(3), 3), diamond(9, 9, 2)]));
    v.push(("hole_touching_height".into(), vec![square(0, 0, 12, 12), vec![(2, 6), (5, 4), (5, 8)], vec![(10, 6), (7, 8), (7, 4)]]));
    v.push(("spiral_with_island".into(), vec![map1(&spiral(7), 4), tri_up(2, 2, 1)]));
    if big {
        let mut ps = vec![square(0, 0, 60, 60)];
        for i in 0..5 { for j in 0..5 { let (x, y) = (12 * i + 6, 12 * j + 6); ps.push(if (i + j) % 2 == 0 { square(x - 3, y - 3, x + 3, y + 3) } else { diamond(x, y, 4) }); } }
        v.push(("holes(5x5)".into(), ps));
        v.push(("nested_squares(9)".into(), (0..9).map(|i| square(-10 * (9 - i), -10 * (9 - i), 10 * (9 - i), 10 * (9 - i))).collect()));
    }
    let bad: Vec<&String> = v.iter().filter(|(_, p)| !is_valid_set(p)).map(|(n, _)| n).collect();
    assert!(bad.is_empty(), "invalid arrangements: {bad:?}");
    v
}
fn map1(p: &[Pt], k: i64) -> Poly { p.iter().map(|q| (q.0 * k, q.1 * k)).collect() }

/// A part with many vertices (about `n`) together with polygons of about `m` vertices whose long edges
/// reach past all of it: around it, beside it, both, and listed before and after it.
pub fn crowds(n: i64, m: i64) -> Vec<Vec<Poly>> {
    let zigzag = { let mut p: Poly = (0..n).map(|i| (4 * (i % 2), 4 * i)).collect(); p.push((30, 4 * n)); p.push((31, -6)); p };
    let lens = map_all(&[lens(n)], |(x, y)| (x / 8, y)).remove(0);
    let k = ((n / 3) as f64).sqrt() as i64;
    let cells: Vec<Poly> = (0..k * k).map(|i| { let (x, y) = (24 * (i % k) + i / k, 24 * (i / k) + 3 * (i % k)); tri_up(x, y, 4) }).collect();
    let column: Vec<Poly> = (0..n / 4).map(|i| diamond(3 * (i % 3), 14 * i, 5)).collect();
    let mut out = vec![];
    for dense in [vec![zigzag], vec![lens], cells, column] {
        let all: Vec<Pt> = dense.iter().flatten().copied().collect();
        let (x0, x1) = (all.iter().map(|q| q.0).min().unwrap(), all.iter().map(|q| q.0).max().unwrap());
        let (y0, y1) = (all.iter().map(|q| q.1).min().unwrap(), all.iter().map(|q| q.1).max().unwrap());
        let (cx, cy, r) = ((x0 + x1) / 2, (y0 + y1) / 2, (x1 - x0 + y1 - y0) as f64);
        let round = |r: f64, t: f64| -> Poly { (0..m).map(|i| { let a = t + i as f64 * std::f64::consts::TAU / m as f64; (cx + (r * a.cos()) as i64, cy + (r * a.sin()) as i64) }).collect() };
        let h = (m / 2).max(2);
        let level = |i: i64, d: i64| y0 - 9 + d + i * (y1 - y0 + 18) / (h - 1);
        let strip: Poly = (0..h).map(|i| (x1 + 20 + i * i, level(i, 0))).chain((0..h).rev().map(|i| (x1 + 50 + i * i + i % 2 * 7, level(i, 1)))).collect();
        let left: Poly = strip.iter().rev().map(|q| (x0 + x1 - q.0, q.1)).collect();
        let (around, wider) = (round(1.2 * r, 0.1), round(2.0 * r, 0.3));
        for others in [vec![around.clone()], vec![strip.clone()], vec![left.clone(), strip.clone()], vec![around.clone(), wider.clone()], vec![strip.clone(), wider.clone()]] {
            let others: Vec<Poly> = others.into_iter().enumerate().map(|(i, p)| if i % 2 == 1 { reversed(&p) } else { p }).collect();
            for set in [[dense.clone(), others.clone()].concat(), [others.clone(), dense.clone()].concat()] { if is_valid_set(&set) { out.push(set); } }
        }
    }
    out
}

/// More polygons than sixteen bits count: beside each other, as holes of one, and one in each other.
pub fn masses(m: i64) -> Vec<Vec<Poly>> {
    let cells = |m: i64, r: i64| -> Vec<Poly> {
        order_perm(Order::Scrambled, (m * m) as usize).into_iter().map(|i| i as i64).map(|i| {
            let (x, y) = (i % m, i / m); let (a, b) = (20 * x + y % 7, 20 * y + x % 5);
            let p = if (x + y) % 3 == 0 { tri_up(a, b, r) } else { vec![(a - r, b - r), (a + r, b - r + 1), (a + r, b + r), (a - r - 1, b + r + 1)] };
            if i % 3 == 1 { reversed(&p) } else { p }
        }).collect()
    };
    let around = |m: i64| square(-40, -41, 20 * m + 20, 20 * m + 21);
    let mut held = cells(m, 5);
    held.insert(1000.min(held.len()), around(m));
    let h = m * 3 / 4;
    vec![cells(m, 5), held, [cells(h, 6), cells(h, 2)].concat()]
}

/// All "mountains": a straight right side from bottom to top, and `m` left vertices at y = 1..m whose
/// depths range over 1..=d. Exercises every stack pattern of the monotone stage.
pub fn mountains(m: usize, d: i64) -> Vec<Vec<Poly>> {
    let mut out = vec![];
    let total = (d as usize).pow(m as u32);
    for c in 0..total {
        let mut p: Poly = vec![(0, 0), (0, m as i64 + 1)];
        let mut x = c;
        let mut chain: Poly = vec![];
        for i in 0..m { chain.push((-(1 + (x % d as usize) as i64), i as i64 + 1)); x /= d as usize; }
        chain.reverse();
        p.extend(chain);
        out.push(vec![p]);
    }
    out
}
/// All y-monotone polygons with `m` inner levels: at each level one vertex on the left or right
/// boundary, at distance 1..=d.
pub fn two_chains(m: usize, d: i64) -> Vec<Vec<Poly>> {
    let a = 2 * d as usize;
    let total = a.pow(m as u32);
    let mut out = vec![];
    for c in 0..total {
        let (mut l, mut r): (Poly, Poly) = (vec![], vec![]);
        let mut x = c;
        for i in 0..m {
            let v = x % a; x /= a;
            let q = (v / 2) as i64 + 1;
            if v % 2 == 0 { l.push((-q, i as i64 + 1)); } else { r.push((q, i as i64 + 1)); }
        }
        let mut p: Poly = vec![(0, 0)];
        p.extend(r);
        p.push((0, m as i64 + 1));
        l.reverse();
        p.extend(l);
        if p.len() >= 3 && is_simple(&p) { out.push(vec![p]); }
    }
    out
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn masses_are_valid() { for m in [9, 24] { for p in masses(m) { assert!(is_valid_set(&p)); } } }
    #[test]
    fn forests_are_valid() {
        for k in 1..=6 { for f in forests(k) { for s in 0..3 {
            let ps = forest_polys(&f, s);
            assert!(is_valid_set(&ps), "{f:?} {s} {ps:?}");
            let (_, depth) = region(&ps);
            for i in 0..k { assert_eq!(depth[i], if f[i] == usize::MAX { 0 } else { depth[f[i]] + 1 }, "{f:?} {s}"); }
        } } }
        for n in [60, 120, 600] { for (n, p) in huge_polygons(n) { assert!(is_valid_set(&p), "{n}"); } }
    }
    #[test]
    fn families_are_valid() {
        for ks in [[8, 12], [16, 20], [24, 32], [40, 64]] { large_polygons(&ks); }
        arrangements(true);
        assert_eq!(grid_polys(3, 3, 4).len(), 284);
        for o in ORDERS { let mut p = order_perm(o, 9); p.sort(); assert_eq!(p, (0..9).collect::<Vec<_>>()); }
    }
}
