//! Choice-point controller (NOT part of upstream rand).
//!
//! While a session is active on the current thread every uniform integer draw made through this
//! crate (`gen_range`, `shuffle`, `Uniform`, ...) becomes a *choice point* of a stateless model
//! checker: the explorer replays a prefix of choices and takes alternative 0 afterwards. For a draw
//! out of `n` values, alternative `c` means the value with offset `n - 1 - (base + c) % n`, where
//! `base` (0 unless set) is the default answer of that choice point. With base 0, alternative 0 at
//! every point of a Fisher-Yates shuffle is the identity order; each non-zero alternative is one
//! deviation from the default. Outside a session the crate behaves exactly like upstream.

use std::cell::RefCell;
use std::vec::Vec;

/// State of the controller on one thread.
#[derive(Debug, Default)]
pub struct Session {
    /// Alternatives to replay.
    pub prefix: Vec<u32>,
    /// Default answer of each choice point (0 past the end).
    pub base: Vec<u32>,
    /// (alternative taken, number of alternatives) of every choice point passed so far.
    pub trace: Vec<(u32, u32)>,
    /// Raw draws (`next_u32`, `next_u64`, `fill_bytes`) that are not choice points.
    pub raw_draws: u64,
    /// A replayed choice was out of range: the program diverged from the recorded execution.
    pub diverged: bool,
    raw_state: u64,
}

std::thread_local! {
    static SESSION: RefCell<Option<Session>> = const { RefCell::new(None) };
}

/// Starts a session replaying `prefix` (buffers of the previous session may be passed for reuse).
pub fn begin(prefix: Vec<u32>, base: Vec<u32>, mut trace: Vec<(u32, u32)>) {
    trace.clear();
    // raw draws: one fixed stream per sequence of default answers
    let raw_state = base.iter().fold(0x9E3779B97F4A7C15u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001B3).rotate_left(29));
    SESSION.with(|s| {
        *s.borrow_mut() = Some(Session { prefix, base, trace, raw_draws: 0, diverged: false, raw_state })
    });
}

/// Takes the session away for a while (`resume` puts it back), so that an inner computation can run
/// under a session of its own.
pub fn suspend() -> Option<Session> {
    SESSION.with(|s| s.borrow_mut().take())
}

/// Puts a suspended session back.
pub fn resume(session: Option<Session>) {
    SESSION.with(|s| *s.borrow_mut() = session);
}

/// Alternatives taken so far and the defaults of the current session.
pub fn snapshot() -> Option<(Vec<u32>, Vec<u32>)> {
    SESSION.with(|s| s.borrow().as_ref().map(|s| (s.trace.iter().map(|x| x.0).collect(), s.base.clone())))
}

/// Number of draws (choice points and raw) so far in the current session.
pub fn draws() -> Option<(usize, u64)> {
    SESSION.with(|s| s.borrow().as_ref().map(|s| (s.trace.len(), s.raw_draws)))
}

/// Ends the session and returns what happened in it.
pub fn end() -> Option<Session> {
    SESSION.with(|s| s.borrow_mut().take())
}

/// A choice point with `n` alternatives; `None` outside a session.
#[inline]
pub fn choose(n: u64) -> Option<u64> {
    SESSION.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut()?;
        if n > u32::MAX as u64 {
            // Far too many alternatives to enumerate
            s.raw_draws += 1;
            return None;
        }
        let mut c = s.prefix.get(s.trace.len()).copied().unwrap_or(0);
        if c as u64 >= n {
            s.diverged = true;
            c = 0;
        }
        let b = s.base.get(s.trace.len()).copied().unwrap_or(0) as u64;
        s.trace.push((c, n as u32));
        Some((b + c as u64) % n)
    })
}

/// Raw draw: deterministic inside a session, `None` outside.
#[inline]
pub fn raw() -> Option<u64> {
    SESSION.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut()?;
        s.raw_draws += 1;
        s.raw_state = s.raw_state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s.raw_state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        Some(z ^ (z >> 31))
    })
}
