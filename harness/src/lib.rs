//! Shared parts of the conformance harness.
//!
//! * `model`: interpreter of the tables that TLC exports from spec/IrTable.tla
//! * `recv`:  the real receivers of /repo behind one object-safe trait
//! * `gen`:   generator of edge sequences (coverage only; it never judges)
//! * `util`:  random numbers, watchdog, reporting
pub mod drive;
pub mod gen;
pub mod model;
pub mod recv;
pub mod util;

/// Outcome of one receiver step
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum R {
    /// Nothing
    N,
    /// Error: 0 Address, 1 Data, 2 Validation, 3 RemoteControl, 4 pin
    E(u8),
    /// Command: values in the order of Layout(p), then the extra value
    C([u32; 5]),
}

impl R {
    pub fn show(&self) -> String {
        match self {
            R::N => "-".into(),
            R::E(k) => format!("e{k}"),
            R::C(v) => format!("c{}.{}.{}.{}.{}", v[0], v[1], v[2], v[3], v[4]),
        }
    }
    pub fn parse(s: &str) -> R {
        if let Some(r) = s.strip_prefix('e') {
            R::E(r.parse().unwrap())
        } else if let Some(r) = s.strip_prefix('c') {
            let mut v = [0; 5];
            for (i, x) in r.split('.').enumerate() {
                v[i] = x.parse().unwrap();
            }
            R::C(v)
        } else {
            R::N
        }
    }
    /// Outcome as the TLA+ modules write it; nv: number of values of a command
    pub fn json(&self, nv: usize) -> String {
        match self {
            R::N => "[]".into(),
            R::E(k) => {
                format!("[\"e\",\"{}\"]", ["Address", "Data", "Validation", "Remote", "Pin"][*k as usize])
            }
            R::C(v) => {
                // Denon: anything above the 48 bits makes an extra value
                let n = if v[nv..].iter().all(|x| *x == 0) { nv } else { 5 };
                format!(
                    "[\"c\",[{}]]",
                    v[..n].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                )
            }
        }
    }
    pub fn is_cmd(&self) -> bool {
        matches!(self, R::C(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, R::E(_))
    }
}

pub const PROTOS: [&str; 9] = [
    "nec", "nec16", "samsung", "apple", "raw", "sbp", "denon", "rc5", "rc6",
];

pub fn is_nec(p: &str) -> bool {
    matches!(p, "nec" | "nec16" | "samsung" | "apple" | "raw")
}
pub fn is_biphase(p: &str) -> bool {
    matches!(p, "rc5" | "rc6")
}

/// One line edge
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ev {
    pub e: bool,
    pub dt: u64,
}
