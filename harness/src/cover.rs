//! Basic-block instrumentation of the `cost` build (SanitizerCoverage, guards): a step counter, and
//! how often each edge was taken since the last reset. Also the coverage-guided search over choice
//! sequences that uses it.

use crate::engine::{guarded, Cx, Fail, Prop, Src};

pub const MAP: usize = 1 << 19;

#[cfg(rw_cost)]
mod imp {
    use super::MAP;
    std::arch::global_asm!(
        ".globl __sanitizer_cov_trace_pc_guard",
        "__sanitizer_cov_trace_pc_guard:",
        "inc qword ptr [rip + RW_STEPS]",
        "mov eax, dword ptr [rdi]",
        "lea rcx, [rip + RW_EDGES]",
        "mov dl, byte ptr [rip + RW_ON]",
        "add byte ptr [rcx + rax], dl",
        "ret",
    );
    #[unsafe(no_mangle)]
    pub static mut RW_STEPS: u64 = 0;
    #[unsafe(no_mangle)]
    pub static mut RW_ON: u8 = 0;
    pub fn on(x: bool) {
        unsafe { std::ptr::write_volatile(&raw mut RW_ON, x as u8) }
    }
    #[unsafe(no_mangle)]
    pub static mut RW_EDGES: [u8; MAP] = [0; MAP];
    static mut USED: u32 = 0;
    #[unsafe(no_mangle)]
    unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
        unsafe {
            if start == stop || *start != 0 {
                return;
            }
            while start < stop {
                USED = (USED + 1) % MAP as u32;
                *start = USED;
                start = start.add(1);
            }
        }
    }
    pub fn steps() -> u64 {
        unsafe { std::ptr::read_volatile(&raw const RW_STEPS) }
    }
    pub fn edges() -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(&raw mut RW_EDGES as *mut u8, (USED as usize + 8) & !7) }
    }
}
#[cfg(not(rw_cost))]
mod imp {
    pub fn steps() -> u64 {
        0
    }
    pub fn on(_: bool) {}
    pub fn edges() -> &'static mut [u8] {
        &mut []
    }
}
pub use imp::steps;

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// Steers a search by the edges that a case takes and how often (in powers of two): cases that show
/// something new are kept and varied.
pub struct Guide {
    seen: Vec<u8>,
    corpus: Vec<Vec<u32>>,
    rng: u64,
    pub edges: usize,
}

impl Guide {
    pub fn new(seed: u64) -> Guide {
        Guide { seen: vec![0; imp::edges().len()], corpus: vec![], rng: seed, edges: 0 }
    }
    pub fn corpus(&self) -> usize {
        self.corpus.len()
    }
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
        crate::engine::mix(self.rng)
    }
    fn below(&mut self, n: usize) -> usize {
        (((self.next() >> 32) * n.max(1) as u64) >> 32) as usize
    }
    /// The next input: choices to start with, and the seed of those after them.
    pub fn input(&mut self) -> (Vec<u32>, u64) {
        let tail = self.next();
        if self.corpus.is_empty() || self.below(8) == 0 {
            return (vec![], tail);
        }
        // Newer entries more often.
        let n = self.corpus.len();
        let i = if self.below(2) == 0 { self.below(n) } else { n - 1 - self.below(n.min(1 + n / 8)) };
        let mut v = self.corpus[i].clone();
        for _ in 0..1 << self.below(4) {
            if v.is_empty() {
                break;
            }
            let at = self.below(v.len());
            match self.below(9) {
                0 => v[at] = self.next() as u32,
                1 => v[at] = v[at].wrapping_add(1),
                2 => v[at] = v[at].saturating_sub(1),
                3 => v[at] = self.below(8) as u32,
                4 => {
                    let k = 1 + self.below(12);
                    v.drain(at..(at + k).min(v.len()));
                }
                5 => {
                    let k = 1 + self.below(12);
                    let b: Vec<u32> = v[at..(at + k).min(v.len())].to_vec();
                    let to = self.below(v.len() + 1);
                    v.splice(to..to, b);
                }
                6 => v.truncate(at),
                7 => {
                    let j = self.below(n);
                    let o = self.corpus[j].clone();
                    let from = self.below(o.len());
                    v.truncate(at);
                    v.extend_from_slice(&o[from..]);
                }
                _ => {
                    let k = self.below(4);
                    for _ in 0..k {
                        let x = self.next() as u32;
                        v.insert(at, x);
                    }
                }
            }
        }
        (v, tail)
    }
    /// Runs one case; keeps it if it shows something new.
    pub fn run(&mut self, p: Prop, src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
        imp::edges().fill(0);
        imp::on(true);
        let r = guarded(p, src, cx);
        imp::on(false);
        let mut new = false;
        let map = imp::edges();
        for (w, c) in map.chunks_exact(8).enumerate() {
            if u64::from_ne_bytes(c.try_into().unwrap()) == 0 {
                continue;
            }
            for (i, &n) in c.iter().enumerate() {
                let b = bucket(n);
                let s = &mut self.seen[w * 8 + i];
                if b & !*s != 0 {
                    if *s == 0 {
                        self.edges += 1;
                    }
                    *s |= b;
                    new = true;
                }
            }
        }
        if new && src.choices.len() < 20_000 {
            self.corpus.push(src.choices.clone());
        }
        r
    }
}
