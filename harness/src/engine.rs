//! Choice-sequence engine: every random decision of a case is one `draw`, recorded in order.
//! A case is therefore its choice sequence; shrinking edits the sequence, replaying feeds it back.

use std::collections::BTreeMap;
use std::io::Write;

pub struct Fail(pub String);
pub type R = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c { return Err($crate::engine::Fail(format!("{} [{}] ({}:{})", format!($($arg)*), stringify!($c), file!(), line!()))); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err($crate::engine::Fail(format!("{}: got {:?}, expected {:?} ({}:{})", format!($($arg)*), a, b, file!(), line!())));
        }
    }};
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Numbers and texts that occur as literals in the sources of the code under test (`RW_DICT`, as
/// JSON). They only steer the random draws: a recorded choice sequence means the same without them.
#[derive(Default)]
pub struct Dict {
    pub numbers: Vec<u32>,
    pub texts: Vec<String>,
}
pub fn dict() -> &'static Dict {
    static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    DICT.get_or_init(|| {
        let v: serde_json::Value = std::env::var("RW_DICT").ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
        Dict {
            numbers: v["numbers"].as_array().map(|a| a.iter().filter_map(|n| n.as_u64()).map(|n| n.min(u32::MAX as u64) as u32).collect()).unwrap_or_default(),
            texts: v["texts"].as_array().map(|a| a.iter().filter_map(|n| n.as_str()).map(String::from).collect()).unwrap_or_default(),
        }
    })
}

enum Mode {
    Random(u64),
    Replay(Vec<u32>),
    Bytes(Vec<u8>),
    /// Choices to start with, then random ones.
    Mixed(Vec<u32>, u64),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    pub choices: Vec<u32>,
    trace: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(mix(seed)), pos: 0, choices: Vec::with_capacity(1 << 12), trace: None }
    }
    pub fn replay(choices: Vec<u32>) -> Src {
        Src { mode: Mode::Replay(choices), pos: 0, choices: Vec::with_capacity(1 << 12), trace: None }
    }
    pub fn bytes(bytes: Vec<u8>) -> Src {
        Src { mode: Mode::Bytes(bytes), pos: 0, choices: Vec::with_capacity(1 << 12), trace: None }
    }
    pub fn remix(&mut self, choices: Vec<u32>, seed: u64) {
        self.mode = Mode::Mixed(choices, mix(seed));
        self.pos = 0;
        self.choices.clear();
    }
    pub fn reseed(&mut self, seed: u64) {
        self.mode = Mode::Random(mix(seed));
        self.pos = 0;
        self.choices.clear();
    }
    /// Write every choice to `file` as it is made, so that a crash leaves the sequence behind.
    pub fn trace_to(&mut self, file: std::fs::File) {
        self.trace = Some(file);
    }
    pub fn heap_bytes(&self) -> usize {
        self.choices.capacity() * 4
    }
    /// True once a finite source has run dry: generators should finish quickly.
    pub fn dry(&self) -> bool {
        match &self.mode {
            Mode::Random(_) | Mode::Mixed(..) => false,
            Mode::Replay(v) => self.pos >= v.len(),
            Mode::Bytes(v) => self.pos >= v.len(),
        }
    }
    /// Uniform in `0..n` (0 is always the simplest choice).
    pub fn draw(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let c = match &mut self.mode {
            Mode::Mixed(v, _) if self.pos < v.len() => {
                let c = v[self.pos];
                self.pos += 1;
                if c < n { c } else { c % n }
            }
            Mode::Random(s) | Mode::Mixed(_, s) => {
                *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let mut z = *s;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                z ^= z >> 31;
                (((z >> 32) * n as u64) >> 32) as u32
            }
            Mode::Replay(v) => {
                let c = v.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                c.min(n - 1)
            }
            Mode::Bytes(v) => {
                let k = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 4 };
                let mut x = 0u32;
                for i in 0..k {
                    x = (x << 8) | v.get(self.pos + i).copied().unwrap_or(0) as u32;
                }
                self.pos += k;
                x % n
            }
        };
        self.record(c)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n.max(1) as u32) as usize
    }
    /// Uniform in `lo..=hi`, except that a number from the dictionary is taken a little more often
    /// when the range is long.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi - lo >= 16 {
            return self.near(lo, hi, 1);
        }
        lo + self.below(hi - lo + 1)
    }
    /// In `lo..=hi`; with probability `w`/16 a dictionary number or a neighbour of one, if that fits.
    pub fn near(&mut self, lo: usize, hi: usize, w: u64) -> usize {
        let r = self.aside();
        let d = dict();
        if self.fresh() && !d.numbers.is_empty() && (r & 15) < w {
            let k = (r >> 8) as usize % d.numbers.len();
            let v = (d.numbers[k] as i64 + [0, 1, -1, 0][(r >> 40) as usize % 4]).max(0) as usize;
            if lo <= v && v <= hi {
                return lo + self.record((v - lo) as u32) as usize;
            }
        }
        lo + self.below(hi - lo + 1)
    }
    /// Any 16-bit number, those of the dictionary more often.
    pub fn word(&mut self) -> u16 {
        self.near(0, 65535, 4) as u16
    }
    /// Randomness that is not itself a choice: it only decides how the next choice is drawn.
    fn aside(&mut self) -> u64 {
        if !self.fresh() {
            return u64::MAX;
        }
        match &mut self.mode {
            Mode::Random(s) | Mode::Mixed(_, s) => {
                *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
                mix(*s)
            }
            _ => u64::MAX,
        }
    }
    /// Whether the next choice is drawn at random.
    fn fresh(&self) -> bool {
        match &self.mode {
            Mode::Random(_) => true,
            Mode::Mixed(v, _) => self.pos >= v.len(),
            _ => false,
        }
    }
    /// A short text, usually one of the dictionary.
    pub fn literal(&mut self) -> String {
        let r = self.aside();
        let d = dict();
        if self.fresh() && !d.texts.is_empty() && r & 3 != 0 {
            let t: String = d.texts[(r >> 8) as usize % d.texts.len()].chars().take(24).collect();
            self.record(t.chars().count() as u32);
            t.chars().for_each(|c| drop(self.record(c as u32)));
            return t;
        }
        let n = self.draw(25);
        (0..n).map(|_| char::from_u32(self.draw(0x11_0000)).unwrap_or('q')).collect()
    }
    fn record(&mut self, c: u32) -> u32 {
        self.choices.push(c);
        if let Some(f) = &mut self.trace {
            let _ = f.write_all(format!("{c}\n").as_bytes());
        }
        c
    }
    /// True with probability `num/den`; false is the simple choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut x = self.draw(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub sample: Option<String>,
    pub want_sample: bool,
    /// Extra evaluations inside the case (queries compared with the oracle).
    pub queries: u64,
    /// Set by the memory checks: leave out misuse whose clean-up the library does not promise.
    pub no_misuse: bool,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str(" ...");
            }
            self.sample = Some(s);
        }
    }
}

pub type Prop = fn(&mut Src, &mut Cx) -> R;

/// Runs `f`, turning a panic into a failure.
pub fn guarded(p: Prop, src: &mut Src, cx: &mut Cx) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p(src, cx))) {
        Ok(r) => r,
        Err(e) => fail(format!("panic: {}", panic_text(&e))),
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    let loc = LAST_PANIC.with(|l| l.borrow().clone());
    format!("{s} at {loc}")
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = loc;
            }
        });
    }));
}

/// True if `f` panics.
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _ = f();
    }))
    .is_err()
}

pub fn digest(choices: &[u32]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &c in choices {
        h = (h ^ c as u64).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    mix(h)
}

/// Shrinks a failing choice sequence; `still_fails` runs a candidate and, if it fails, returns the
/// choices it actually consumed.
pub fn shrink(
    mut best: Vec<u32>,
    max_attempts: usize,
    mut still_fails: impl FnMut(&[u32]) -> Option<Vec<u32>>,
) -> Vec<u32> {
    let mut attempts = 0;
    let simpler = |a: &[u32], b: &[u32]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let mut improved = false;
        // Delete blocks.
        let mut size = (best.len() / 2).clamp(1, 1024);
        loop {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                let mut cand = best.clone();
                cand.drain(lo..i);
                attempts += 1;
                if attempts > max_attempts {
                    return best;
                }
                if let Some(c) = still_fails(&cand) {
                    if simpler(&c, &best) {
                        best = c;
                        improved = true;
                    }
                }
                i = lo.min(best.len());
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero blocks, then lower single values.
        for size in [16usize, 4] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    cand[i..hi].iter_mut().for_each(|x| *x = 0);
                    attempts += 1;
                    if attempts > max_attempts {
                        return best;
                    }
                    if let Some(c) = still_fails(&cand) {
                        if simpler(&c, &best) {
                            best = c;
                            improved = true;
                        }
                    }
                }
                i = hi;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [0, v / 2, v.saturating_sub(1)] {
                if i >= best.len() || best[i] <= nv {
                    continue;
                }
                let mut cand = best.clone();
                cand[i] = nv;
                attempts += 1;
                if attempts > max_attempts {
                    return best;
                }
                if let Some(c) = still_fails(&cand) {
                    if simpler(&c, &best) {
                        best = c;
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        if !improved {
            return best;
        }
    }
}
