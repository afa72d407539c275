use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            lo
        } else {
            lo + self.below(hi - lo + 1)
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
}

/// One slot per worker: number of the case in work (0: none) and its progress.
/// A slot that does not move for `secs` is a call that does not return.
pub static CASE: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
pub static BEAT: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

pub fn beat(slot: u64, case: u64) {
    CASE[slot as usize].store(case, Ordering::Relaxed);
    BEAT[slot as usize].fetch_add(1, Ordering::Relaxed);
}
pub fn idle(slot: u64) {
    CASE[slot as usize].store(0, Ordering::Relaxed);
}

pub fn watchdog(secs: u64, what: &'static str) {
    std::thread::spawn(move || {
        let mut last = [0u64; 64];
        let mut quiet = [0u64; 64];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for i in 0..64 {
                let now = BEAT[i].load(Ordering::Relaxed);
                let case = CASE[i].load(Ordering::Relaxed);
                if now == last[i] && case != 0 {
                    quiet[i] += 1;
                    if quiet[i] >= secs {
                        println!("VIOL hang: {what} case {case}: a call did not return within {secs} s");
                        use std::io::Write;
                        let _ = std::io::stdout().flush();
                        std::process::exit(0);
                    }
                } else {
                    quiet[i] = 0;
                    last[i] = now;
                }
            }
        }
    });
}

/// Quiet panics: they are data here.
pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(m) = info.payload().downcast_ref::<&str>() {
            m.to_string()
        } else if let Some(m) = info.payload().downcast_ref::<String>() {
            m.clone()
        } else {
            String::new()
        };
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{msg} at {s}");
    }));
}

pub static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn last_panic() -> String {
    PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

/// Run `f`; Err with the panic message if it panics.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn stat(k: &str, v: u64) {
    println!("STAT {k} {v}");
}

pub struct Args(pub Vec<String>);
impl Args {
    pub fn get() -> Self {
        Args(std::env::args().skip(1).collect())
    }
    pub fn opt(&self, k: &str) -> Option<&str> {
        self.0
            .iter()
            .position(|a| a == k)
            .and_then(|i| self.0.get(i + 1))
            .map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.opt(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
}

pub fn hash(s: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in s {
        h ^= x;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
    }
    h
}

/// Run `f(thread, deadline)` in n threads
pub fn threads<T: Send + 'static>(n: u64, f: impl Fn(u64) -> T + Send + Sync + 'static) -> Vec<T> {
    let f = std::sync::Arc::new(f);
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let f = f.clone();
            std::thread::spawn(move || f(i))
        })
        .collect();
    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| { eprintln!("worker panicked: {}", last_panic()); std::process::exit(3) })).collect()
}
