//! Choice tapes. Every generator decision is a read from a byte tape; when the tape is exhausted
//! the decision is made by the PRNG (with policies using the dictionary) and appended to it. A case is
//! therefore replayed exactly by its tape, and mutated by mutating its tape.
use crate::rng::Rng;

#[derive(Default)]
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
    pub dyn_nums: Vec<u64>,
    seen: std::collections::HashSet<u64>,
}
impl Dict {
    pub fn learn(&mut self, v: u64) {
        if self.dyn_nums.len() < 3000 && self.seen.insert(v) {
            self.dyn_nums.push(v);
        }
    }
    pub fn num(&self, r: &mut Rng) -> u64 {
        let (a, b) = (self.nums.len(), self.dyn_nums.len());
        if a + b == 0 {
            return r.next();
        }
        let v = if b == 0 || (a > 0 && r.chance(128)) {
            self.nums[r.below(a)]
        } else {
            self.dyn_nums[r.below(b)]
        };
        match r.below(6) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            _ => v,
        }
    }
    pub fn str(&self, r: &mut Rng) -> Vec<u8> {
        if self.strs.is_empty() {
            b"abc".to_vec()
        } else {
            self.strs[r.below(self.strs.len())].clone()
        }
    }
}

/// Mirror of the running tape in shared memory, so that it survives a crash of the process.
pub struct Mirror {
    ptr: *mut u8,
    cap: usize,
}
impl Mirror {
    pub fn none() -> Mirror {
        Mirror { ptr: std::ptr::null_mut(), cap: 0 }
    }
    pub fn new(ptr: *mut u8, cap: usize) -> Mirror {
        Mirror { ptr, cap }
    }
    fn set_len(&self, n: usize) {
        unsafe { (self.ptr as *mut u64).write_volatile(n as u64) }
    }
    /// `tag`: 1 = tape case, 2 = enumerated case `n`
    pub fn start(&self, tag: u64, n: u64, tape: &[u8]) {
        if self.ptr.is_null() {
            return;
        }
        unsafe {
            (self.ptr as *mut u64).add(1).write_volatile(tag);
            (self.ptr as *mut u64).add(2).write_volatile(n);
            let k = tape.len().min(self.cap - 24);
            std::ptr::copy_nonoverlapping(tape.as_ptr(), self.ptr.add(24), k);
            self.set_len(k);
        }
    }
    #[inline]
    fn push(&self, i: usize, b: u8) {
        if !self.ptr.is_null() && i + 24 < self.cap {
            unsafe { self.ptr.add(24 + i).write_volatile(b) };
            self.set_len(i + 1);
        }
    }
}

pub struct Src<'a> {
    tape: &'a mut Vec<u8>,
    pos: usize,
    rng: Rng,
    dict: &'a Dict,
    mirror: &'a Mirror,
}

impl<'a> Src<'a> {
    pub fn new(tape: &'a mut Vec<u8>, seed: u64, dict: &'a Dict, mirror: &'a Mirror) -> Src<'a> {
        Src { tape, pos: 0, rng: Rng::new(seed), dict, mirror }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    #[inline]
    fn push(&mut self, b: u8) {
        self.mirror.push(self.tape.len(), b);
        self.tape.push(b);
        self.pos += 1;
    }
    #[inline]
    fn fresh(&self) -> bool {
        self.pos >= self.tape.len()
    }
    #[inline]
    pub fn u8(&mut self) -> u8 {
        if self.fresh() {
            let b = (self.rng.next() >> 24) as u8;
            self.push(b);
            b
        } else {
            self.pos += 1;
            self.tape[self.pos - 1]
        }
    }
    fn raw(&mut self, n: usize) -> u64 {
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.u8() as u64) << (8 * i);
        }
        v
    }
    fn put(&mut self, v: u64, n: usize) -> u64 {
        for i in 0..n {
            self.push((v >> (8 * i)) as u8);
        }
        if n == 8 {
            v
        } else {
            v & ((1 << (8 * n)) - 1)
        }
    }
    /// Uniform below n.
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else if n <= 256 {
            self.u8() as usize % n
        } else {
            self.raw(4) as usize % n
        }
    }
    /// True with probability n/256.
    #[inline]
    pub fn chance(&mut self, n: u32) -> bool {
        (self.u8() as u32) < n
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// An integer of `bytes` bytes, biased to boundary and dictionary values.
    pub fn int(&mut self, bytes: usize) -> u64 {
        if !self.fresh() {
            return self.raw(bytes);
        }
        let bits = 8 * bytes as u32;
        let r = &mut self.rng;
        let v = match r.below(16) {
            0..=3 => r.below(16) as u64,
            4 => u64::MAX - r.below(4) as u64,
            5 => (1u64 << (bits - 1)).wrapping_add(r.below(3) as u64).wrapping_sub(1),
            6 => (1u64 << r.below(bits as usize)).wrapping_add(r.below(3) as u64).wrapping_sub(1),
            7..=9 => self.dict.num(r),
            10 => {
                let b = r.next() & 0xff;
                b * 0x0101_0101_0101_0101
            }
            11 => r.next() & 0xff00_00ff_00ff_00ff,
            _ => r.next(),
        };
        self.put(v, bytes)
    }
    /// A size in 0..=max, biased to small, boundary and dictionary values.
    pub fn size(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        if !self.fresh() {
            return self.raw(4) as usize % (max + 1);
        }
        let r = &mut self.rng;
        let v = match r.below(16) {
            0..=5 => r.below(4),
            6..=9 => r.below(12),
            10..=11 => self.dict.num(r) as usize,
            12 => (1usize << r.below(17)).wrapping_add(r.below(3)).wrapping_sub(1),
            13 => max - r.below(3).min(max),
            14 => r.below(300),
            _ => r.below(max + 1),
        };
        let v = if v > max { r.below(max.min(24) + 1) } else { v };
        self.put(v as u64, 4) as usize
    }
    /// Bytes made by a policy; stored on the tape literally.
    pub fn blob(&mut self, max: usize, gen: impl FnOnce(&mut Rng, &Dict) -> Vec<u8>) -> Vec<u8> {
        let max = max.min(65535);
        if self.fresh() {
            let mut r = Rng::new(self.rng.next());
            let mut b = gen(&mut r, self.dict);
            b.truncate(max);
            self.put(b.len() as u64, 2);
            for &x in &b {
                self.push(x);
            }
            b
        } else {
            let n = self.raw(2) as usize;
            let n = if n > max { n % (max + 1) } else { n };
            let left = self.tape.len().saturating_sub(self.pos);
            let n = n.min(left.max(64));
            (0..n).map(|_| self.u8()).collect()
        }
    }
}

/// Mutate a tape.
pub fn mutate(t: &mut Vec<u8>, other: &[u8], r: &mut Rng, d: &Dict) {
    for _ in 0..1 + r.below(3) * r.below(3) {
        let n = t.len();
        if n == 0 {
            return;
        }
        let at = r.below(n);
        match r.below(12) {
            0 => t[at] = r.next() as u8,
            1 => t[at] ^= 1 << r.below(8),
            2 => t[at] = t[at].wrapping_add([1u8, 2, 255][r.below(3)]),
            3 => t.truncate(at), // re-decide the rest
            4 => {
                let k = 1 + r.below(8);
                for i in 0..k {
                    t.insert((at + i).min(t.len()), r.next() as u8);
                }
            }
            5 => {
                let k = (1 + r.below(8)).min(n - at);
                t.drain(at..at + k);
            }
            6 => {
                let v = d.num(r).to_le_bytes();
                let k = [1, 2, 4, 8][r.below(4)];
                for i in 0..k.min(n - at) {
                    t[at + i] = v[i];
                }
            }
            7 => {
                let s = d.str(r);
                for (i, b) in s.iter().enumerate().take(n - at) {
                    t[at + i] = *b;
                }
            }
            8 if !other.is_empty() => {
                let o = r.below(other.len());
                t.truncate(at);
                t.extend_from_slice(&other[o..]);
            }
            9 => {
                // duplicate a chunk
                let k = (1 + r.below(32)).min(n - at);
                let c: Vec<u8> = t[at..at + k].to_vec();
                let to = r.below(n);
                for (i, b) in c.into_iter().enumerate() {
                    t.insert(to + i, b);
                }
            }
            10 => {
                let k = (1 + r.below(8)).min(n - at);
                let v = [0u8, 0xff, 1, 0x7f, 0x80][r.below(5)];
                for x in &mut t[at..at + k] {
                    *x = v
                }
            }
            _ => {
                // re-decide a window: new random bytes
                let k = (1 + r.below(16)).min(n - at);
                for x in &mut t[at..at + k] {
                    *x = r.next() as u8
                }
            }
        }
    }
    t.truncate(1 << 18);
}
