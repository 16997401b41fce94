//! Input buffers: metered, fragmented, and the assorted kinds a caller may use.
use bytes::{Buf, Bytes, BytesMut};
use std::cell::Cell;
use std::collections::VecDeque;

/// Raised by a metered buffer whose operation budget is exhausted.
pub struct Runaway(pub u64);

/// A buffer that counts the operations performed on it and can be cut into chunks at will.
pub struct Meter<'a> {
    data: &'a [u8],
    pos: usize,
    /// ascending chunk boundaries (exclusive ends); the end of the data is implied
    cuts: &'a [usize],
    pub ops: Cell<u64>,
    budget: u64,
}
impl<'a> Meter<'a> {
    pub fn new(data: &'a [u8], budget: u64) -> Self {
        Meter { data, pos: 0, cuts: &[], ops: Cell::new(0), budget }
    }
    pub fn cut(data: &'a [u8], cuts: &'a [usize]) -> Self {
        Meter { data, pos: 0, cuts, ops: Cell::new(0), budget: 1_000_000 + 1000 * data.len() as u64 }
    }
    fn tick(&self) {
        let n = self.ops.get() + 1;
        self.ops.set(n);
        if n > self.budget {
            std::panic::panic_any(Runaway(n));
        }
    }
}
impl Buf for Meter<'_> {
    fn remaining(&self) -> usize {
        self.tick();
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        self.tick();
        let end = self.cuts.iter().copied().find(|c| *c > self.pos).unwrap_or(self.data.len());
        &self.data[self.pos..end.min(self.data.len())]
    }
    fn advance(&mut self, n: usize) {
        self.tick();
        assert!(n <= self.data.len() - self.pos, "cannot advance past the end of the input");
        self.pos += n;
    }
}
/// How many buffer operations decoding n octets may take (C15).
pub fn op_budget(n: usize) -> u64 {
    2048 + 48 * n as u64
}
pub const KINDS: [&str; 10] = ["slice", "&mut dyn slice", "Bytes", "BytesMut", "Cursor", "VecDeque", "Chain", "Take", "one-octet chunks", "random chunks"];
/// Run `f` over one kind of buffer holding these octets. Returns what f gave and what is left.
pub fn with_kind<T>(kind: usize, data: &[u8], r: &mut crate::core::Rng, f: impl FnOnce(&mut dyn Buf) -> T) -> (T, usize) {
    match kind {
        0 | 1 => {
            let mut s = data;
            let t = f(&mut s);
            (t, s.len())
        }
        2 => {
            let mut b = Bytes::copy_from_slice(data);
            let t = f(&mut b);
            (t, b.remaining())
        }
        3 => {
            let mut b = BytesMut::from(data);
            let t = f(&mut b);
            (t, b.remaining())
        }
        4 => {
            let skip = r.below(9) as usize;
            let mut v = vec![0xEE; skip];
            v.extend_from_slice(data);
            let mut c = std::io::Cursor::new(&v[..]);
            c.set_position(skip as u64);
            let t = f(&mut c);
            (t, c.remaining())
        }
        5 => {
            let mut q: VecDeque<u8> = VecDeque::with_capacity(data.len() + 1);
            // rotate the ring so that the contents wrap somewhere
            let n = r.below(data.len() as u64 + 1) as usize;
            for _ in 0..n {
                q.push_back(0);
            }
            for _ in 0..n {
                q.pop_front();
            }
            q.extend(data);
            let t = f(&mut q);
            let left = q.remaining();
            (t, left)
        }
        6 => {
            let at = r.below(data.len() as u64 + 1) as usize;
            let mut c = data[..at].chain(&data[at..]);
            let t = f(&mut c);
            let left = c.remaining();
            (t, left)
        }
        7 => {
            let mut v = data.to_vec();
            v.extend_from_slice(&[0xDD; 16]);
            let mut c = (&v[..]).take(data.len());
            let t = f(&mut c);
            let left = c.remaining();
            (t, left)
        }
        8 => {
            let cuts: Vec<usize> = (1..data.len()).collect();
            // finding a chunk is linear in the cuts, so only so many of them
            let cuts = &cuts[..cuts.len().min(600)];
            let mut m = Meter::cut(data, cuts);
            let t = f(&mut m);
            let left = data.len() - m.pos;
            (t, left)
        }
        _ => {
            let mut cuts = vec![];
            let mut p = 0;
            let top = 1 + r.below(24);
            while p < data.len() && cuts.len() < 400 {
                p += 1 + r.below(top) as usize;
                cuts.push(p);
            }
            let mut m = Meter::cut(data, &cuts);
            let t = f(&mut m);
            let left = data.len() - m.pos;
            (t, left)
        }
    }
}
