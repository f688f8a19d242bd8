//! A polygon set as the checks see it: exact coordinates for the oracles, coordinates for the code
//! under test, and the oracles on a list of triangles.

use std::collections::HashMap;

use triangulate::{FanBuilder, FanFormat, ListBuilder, ListFormat, Polygon, PolygonList, TriangleWinding, TriangulationError};

use crate::explore::{guarded, Crash};
use crate::geom::*;
use crate::real::Fx;

pub type V = [Fx; 2];
pub type Tri = [u32; 3];

/// Far more operations than a triangulation of `n` vertices takes under any order it is tried with.
pub fn fuel_for(n: usize) -> u64 { 400_000 + if n <= 3000 { 4_000 * (n * n) as u64 } else { 1_000_000 * n as u64 } }

pub struct Subject {
    pub polys: Vec<Poly>,
    /// All vertices, polygon after polygon; a vertex id is a position in here.
    pub pts: Vec<Pt>,
    pub offs: Vec<u32>,
    pub sizes: Vec<usize>,
    /// Boundary successor of each vertex, interior on the left.
    pub next: Vec<u32>,
    pub depth: Vec<usize>,
    pub area2: i64,
    pub count: usize,
    pub coords: Vec<Vec<V>>,
}

impl Subject {
    pub fn new(polys: &[Poly], f: impl Fn(Pt) -> (f64, f64)) -> Subject {
        debug_assert!(is_valid_set(polys));
        let pts: Vec<Pt> = polys.iter().flatten().copied().collect();
        let mut offs = vec![0u32];
        for p in polys { offs.push(offs.last().unwrap() + p.len() as u32); }
        let (area2_, depth) = region(polys);
        let mut next = vec![0; pts.len()];
        for (k, p) in polys.iter().enumerate() {
            let ccw = area2(p) > 0;
            let forward = ccw == (depth[k] % 2 == 0);
            let n = p.len();
            for i in 0..n { next[offs[k] as usize + i] = offs[k] + (if forward { (i + 1) % n } else { (i + n - 1) % n }) as u32; }
        }
        let holes = depth.iter().filter(|d| *d % 2 == 1).count();
        let count = pts.len() + 2 * holes - 2 * (polys.len() - holes);
        let coords = polys.iter().map(|p| p.iter().map(|&q| { let (x, y) = f(q); [Fx(x), Fx(y)] }).collect()).collect();
        Subject { polys: polys.to_vec(), sizes: polys.iter().map(|p| p.len()).collect(), pts, offs, next, depth, area2: area2_, count, coords }
    }
    pub fn plain(polys: &[Poly]) -> Subject { Subject::new(polys, |q| (q.0 as f64, q.1 as f64)) }
    pub fn n(&self) -> usize { self.pts.len() }
    pub fn fuel(&self) -> u64 { fuel_for(self.n()) }
    pub fn p(&self, i: u32) -> Pt { self.pts[i as usize] }
    pub fn edges(&self) -> usize { self.next.len() }

    // ------------------------------------------------------------ oracles

    /// Triangles use known vertices and, with the given sign (1 counterclockwise), none is inverted.
    pub fn check_orientation(&self, tris: &[Tri], sign: i64) -> Result<(), String> {
        for (k, t) in tris.iter().enumerate() {
            self.check_ids(t)?;
            let c = cross(self.p(t[0]), self.p(t[1]), self.p(t[2])) * sign;
            if c < 0 { return Err(format!("triangle #{k} {t:?} = {:?} is wound {}", t.map(|i| self.p(i)), if sign > 0 { "clockwise" } else { "counterclockwise" })); }
        }
        Ok(())
    }
    pub fn check_ids(&self, t: &Tri) -> Result<(), String> {
        if t.iter().any(|&i| i as usize >= self.n()) { return Err(format!("triangle {t:?} uses an index that is not an input vertex")); }
        Ok(())
    }

    /// Net directed edge chain of the triangles equals the boundary of the region.
    fn chain_is_boundary(&self, tris: &[Tri], scratch: &mut Scratch, flip: bool) -> bool {
        let n = self.n();
        scratch.prepare(n);
        for t in tris { for k in 0..3 {
            let (a, b) = (t[k], t[(k + 1) % 3]);
            let (a, b) = if flip { (b, a) } else { (a, b) };
            scratch.add(a, b, 1); scratch.add(b, a, -1);
        } }
        for a in 0..n as u32 { let b = self.next[a as usize]; scratch.add(a, b, -1); scratch.add(b, a, 1); }
        scratch.all_zero_and_clear()
    }

    /// The triangles (any orientation) tile the region exactly.
    pub fn check_tiling(&self, tris: &[Tri], scratch: &mut Scratch) -> Result<(), String> {
        for t in tris { self.check_ids(t)?; }
        let o: Vec<i64> = tris.iter().map(|t| cross(self.p(t[0]), self.p(t[1]), self.p(t[2]))).collect();
        // Fast sufficient test: no triangle inverted and the boundary of their sum is the boundary of
        // the region, so every point is covered exactly as often as the region covers it.
        if o.iter().all(|&c| c >= 0) && self.chain_is_boundary(tris, scratch, false) { return Ok(()); }
        if o.iter().all(|&c| c <= 0) && self.chain_is_boundary(tris, scratch, true) { return Ok(()); }
        if self.n() > 3000 { return Err("the triangles do not tile the region".into()); }
        // Exact definition
        let solid: Vec<[Pt; 3]> = tris.iter().zip(&o).filter(|x| *x.1 != 0).map(|(t, _)| t.map(|i| self.p(i))).collect();
        let total: i64 = o.iter().map(|c| c.abs()).sum();
        for i in 0..solid.len() { for j in i + 1..solid.len() {
            if triangles_overlap(solid[i], solid[j]) { return Err(format!("triangles {:?} and {:?} overlap", solid[i], solid[j])); }
        } }
        for t in &solid {
            for a in 0..self.n() as u32 {
                let (p, q) = (self.p(a), self.p(self.next[a as usize]));
                if segment_enters_triangle(p, q, *t) { return Err(format!("triangle {t:?} is crossed by the polygon edge {p:?}-{q:?}")); }
            }
            // centroid scaled by 3
            let c = (t[0].0 + t[1].0 + t[2].0, t[0].1 + t[1].1 + t[2].1);
            if !inside_even_odd(&self.polys, c, 3) { return Err(format!("triangle {t:?} lies outside the region")); }
        }
        if total != self.area2 { return Err(format!("the triangles cover area {} of {} (halves)", total, self.area2)); }
        Ok(())
    }

    /// Conforming triangulation on the input vertices.
    pub fn check_conforming(&self, tris: &[Tri]) -> Result<(), String> {
        if tris.len() != self.count { return Err(format!("{} triangles instead of {}", tris.len(), self.count)); }
        let n = self.n();
        let mut used = vec![false; n];
        let mut edges: HashMap<(u32, u32), u32> = HashMap::with_capacity(tris.len() * 3);
        for t in tris {
            self.check_ids(t)?;
            if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] { return Err(format!("triangle {t:?} repeats a vertex")); }
            for k in 0..3 { *edges.entry((t[k], t[(k + 1) % 3])).or_default() += 1; used[t[k] as usize] = true; }
        }
        if let Some(i) = used.iter().position(|u| !u) { return Err(format!("vertex {i} {:?} is in no triangle", self.pts[i])); }
        for (&(a, b), &c) in &edges {
            let back = edges.get(&(b, a)).copied().unwrap_or(0);
            let boundary = self.next[a as usize] == b || self.next[b as usize] == a;
            if boundary {
                if c + back != 1 { return Err(format!("input edge {:?}-{:?} is a side of {} triangles", self.p(a), self.p(b), c + back)); }
            } else if c != 1 || back != 1 { return Err(format!("diagonal {:?}-{:?} is a side of {} triangles one way and {} the other", self.p(a), self.p(b), c, back)); }
        }
        for a in 0..n as u32 { let b = self.next[a as usize];
            if edges.get(&(a, b)).copied().unwrap_or(0) + edges.get(&(b, a)).copied().unwrap_or(0) != 1 { return Err(format!("input edge {:?}-{:?} is no side of a triangle", self.p(a), self.p(b))); } }
        Ok(())
    }

    // ------------------------------------------------------------ running the code under test

    /// Triangulates (single polygons through `Polygon`, several through `PolygonList`) and collects
    /// the triangles in the order delivered.
    pub fn triangles(&self, out: &mut Vec<Tri>) -> Result<(), String> {
        out.clear();
        let r = guarded(self.fuel(), || {
            if self.coords.len() == 1 {
                Polygon::triangulate(&self.coords[0], TriSink::<false>::new(out, &self.offs)).map_err(err_text)
            } else {
                PolygonList::triangulate(&self.coords, TriSink::<false>::new(out, &self.offs)).map_err(err_text)
            }
        });
        flatten(r)
    }
}

pub fn flatten<T>(r: Result<Result<T, String>, Crash>) -> Result<T, String> {
    match r { Ok(Ok(v)) => Ok(v), Ok(Err(e)) => Err(format!("returned an error: {e}")), Err(c) => Err(c.to_string()) }
}

/// First line of an error (the rest is a backtrace).
pub fn err_text<E: std::error::Error>(e: TriangulationError<E>) -> String { e.to_string().lines().next().unwrap_or("").to_string() }

/// Signed edge counter: a matrix for short polygons, a map for long ones.
#[derive(Default)]
pub struct Scratch { n: usize, mat: Vec<i32>, touched: Vec<u32>, map: HashMap<(u32, u32), i32> }
const DENSE: usize = 1500;
impl Scratch {
    fn prepare(&mut self, n: usize) {
        if self.n != n { self.n = n; self.mat.clear(); if n <= DENSE { self.mat.resize(n * n, 0); } }
        self.touched.clear();
        self.map.clear();
    }
    #[inline]
    fn add(&mut self, a: u32, b: u32, d: i32) {
        if self.n > DENSE { *self.map.entry((a, b)).or_default() += d; return; }
        let k = a * self.n as u32 + b; self.mat[k as usize] += d; self.touched.push(k);
    }
    fn all_zero_and_clear(&mut self) -> bool {
        let mut ok = self.map.values().all(|&c| c == 0);
        for &k in &self.touched { if self.mat[k as usize] != 0 { ok = false; } }
        for &k in &self.touched { self.mat[k as usize] = 0; }
        ok
    }
}

/// An index of the code under test as a vertex id.
pub trait ToId { fn id(&self, offs: &[u32]) -> u32; }
impl ToId for usize { fn id(&self, _: &[u32]) -> u32 { *self as u32 } }
impl ToId for [usize; 2] { fn id(&self, offs: &[u32]) -> u32 { match (offs.get(self[0]), offs.get(self[0] + 1)) { (Some(o), Some(e)) if self[1] < (e - o) as usize => o + self[1] as u32, _ => u32::MAX } } }

/// Fan builder collecting triangles.
pub struct TriSink<'s, const CW: bool> { out: &'s mut Vec<Tri>, offs: &'s [u32], root: u32, last: u32 }
impl<'s, const CW: bool> TriSink<'s, CW> { pub fn new(out: &'s mut Vec<Tri>, offs: &'s [u32]) -> Self { TriSink { out, offs, root: 0, last: 0 } } }
impl<'s, 'p, const CW: bool, P: PolygonList<'p> + ?Sized> FanFormat<'p, P> for TriSink<'s, CW> where P::Index: ToId {
    type Builder = Self;
    fn initialize(mut self, _: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self, std::convert::Infallible> { FanBuilder::<'p, P>::new_fan(&mut self, a, b, c)?; Ok(self) }
}
impl<'s, 'p, const CW: bool, P: PolygonList<'p> + ?Sized> FanBuilder<'p, P> for TriSink<'s, CW> where P::Index: ToId {
    type Output = ();
    type Error = std::convert::Infallible;
    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Self::Error> {
        let t = [a.id(self.offs), b.id(self.offs), c.id(self.offs)];
        self.root = t[0]; self.last = t[2];
        self.out.push(t);
        Ok(())
    }
    fn extend_fan(&mut self, v: P::Index) -> Result<(), Self::Error> {
        let v = v.id(self.offs);
        self.out.push([self.root, self.last, v]);
        self.last = v;
        Ok(())
    }
    fn build(self) -> Result<(), Self::Error> { Ok(()) }
    fn fail(self, _: &TriangulationError<Self::Error>) { }
}

/// List builder collecting triangles.
pub struct ListSink<'s, const CW: bool> { pub out: &'s mut Vec<Tri>, pub offs: &'s [u32] }
impl<'s, 'p, const CW: bool, P: PolygonList<'p> + ?Sized> ListFormat<'p, P> for ListSink<'s, CW> where P::Index: ToId {
    type Builder = Self;
    fn initialize(self, _: &'p P) -> Result<Self, std::convert::Infallible> { Ok(self) }
}
impl<'s, 'p, const CW: bool, P: PolygonList<'p> + ?Sized> ListBuilder<'p, P> for ListSink<'s, CW> where P::Index: ToId {
    type Output = ();
    type Error = std::convert::Infallible;
    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };
    fn add_triangle(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Self::Error> { self.out.push([a.id(self.offs), b.id(self.offs), c.id(self.offs)]); Ok(()) }
    fn build(self) -> Result<(), Self::Error> { Ok(()) }
    fn fail(self, _: &TriangulationError<Self::Error>) { }
}

pub fn hash_tris(t: &[Tri]) -> u64 { crate::explore::hash_u32s(t.iter().flatten().copied()) }
