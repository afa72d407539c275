//! Table interpreter.  The tables come from TLC (spec/IrTable.tla); nothing
//! about a protocol is written down here.
use crate::{is_biphase, R};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BufOp {
    Keep,
    Clear,
    App(u8),
    Start,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SaveOp {
    Keep,
    Zero,
    Dur,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DecSt {
    Idle,
    Receiving,
    Done,
    Data,
    Address,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Offer {
    None,
    Cmd,
    Rep,
    NoRep,
}

#[derive(Clone, Copy)]
pub struct Tr {
    pub to: u16,
    pub buf: BufOp,
    pub save: SaveOp,
}

#[derive(Clone, Copy)]
pub struct St {
    pub kind: DecSt,
    pub offer: Offer,
    pub tog: u8,
}

#[derive(Clone, Copy, Debug)]
pub struct Win {
    pub lo: u64,
    pub hi: u64,
    pub base: u64,
    pub glo: u64,
}

pub const NC: usize = 7; // classes 0..=6

pub struct Proto {
    pub name: String,
    pub nbits: u32,
    pub extra: char,
    pub layout: Vec<(u32, u32, bool)>,
    pub pairs: Vec<(u32, u32, bool)>,
    pub biphase: bool,
    pub states: Vec<St>,
    pub names: Vec<String>,
    /// [state][edge][class]
    pub tr: Vec<[[Option<Tr>; NC]; 2]>,
    pub reset: Vec<Option<Tr>>,
    pub init: u16,
    pub win: HashMap<u32, Arc<Vec<Win>>>,
}

pub struct Tables {
    pub protos: HashMap<String, Arc<Proto>>,
    pub freqs: Vec<u32>,
}

impl Tables {
    pub fn load(path: &str) -> Tables {
        let text = std::fs::read_to_string(path).expect("tables");
        let mut ids: HashMap<(String, String), u16> = HashMap::new();
        let mut ps: HashMap<String, Proto> = HashMap::new();
        let mut freqs = vec![];
        for line in text.lines() {
            let t: Vec<&str> = line.split(' ').collect();
            let p = ps.entry(t[1].to_string()).or_insert_with(|| Proto {
                name: t[1].to_string(),
                nbits: 0,
                extra: '-',
                layout: vec![],
                pairs: vec![],
                biphase: is_biphase(t[1]),
                states: vec![],
                names: vec![],
                tr: vec![],
                reset: vec![],
                init: 0,
                win: HashMap::new(),
            });
            let mut id = |p: &mut Proto, n: &str| -> u16 {
                *ids.entry((p.name.clone(), n.to_string())).or_insert_with(|| {
                    p.states.push(St { kind: DecSt::Idle, offer: Offer::None, tog: 0 });
                    p.names.push(n.to_string());
                    p.tr.push([[None; NC]; 2]);
                    p.reset.push(None);
                    (p.states.len() - 1) as u16
                })
            };
            match t[0] {
                "W" => {
                    let f: u32 = t[2].parse().unwrap();
                    if !freqs.contains(&f) {
                        freqs.push(f);
                    }
                    let n = |i: usize| t[i].parse::<i64>().unwrap().max(0) as u64;
                    let w = p.win.entry(f).or_insert_with(|| Arc::new(vec![]));
                    let w = Arc::get_mut(w).unwrap();
                    assert_eq!(w.len() + 1, t[3].parse::<usize>().unwrap());
                    w.push(Win { lo: n(4), hi: n(5), base: n(6), glo: n(7) });
                }
                "L" => p.layout.push((t[3].parse().unwrap(), t[4].parse().unwrap(), t[5] == "1")),
                "X" => {
                    p.nbits = t[2].parse().unwrap();
                    p.extra = t[3].chars().next().unwrap();
                }
                "P" => p.pairs.push((t[2].parse().unwrap(), t[3].parse().unwrap(), t[4] == "1")),
                "S" => {
                    let i = id(p, t[2]) as usize;
                    p.states[i] = St {
                        kind: match t[3] {
                            "Idle" => DecSt::Idle,
                            "Receiving" => DecSt::Receiving,
                            "Done" => DecSt::Done,
                            "Data" => DecSt::Data,
                            "Address" => DecSt::Address,
                            x => panic!("{x}"),
                        },
                        offer: match t[4] {
                            "cmd" => Offer::Cmd,
                            "rep" => Offer::Rep,
                            "norep" => Offer::NoRep,
                            _ => Offer::None,
                        },
                        tog: t[5].parse().unwrap(),
                    };
                }
                "T" => {
                    let a = id(p, t[2]) as usize;
                    let b = id(p, t[6]);
                    let tr = Tr {
                        to: b,
                        buf: match t[7] {
                            "K" => BufOp::Keep,
                            "C" => BufOp::Clear,
                            "0" => BufOp::App(0),
                            "1" => BufOp::App(1),
                            "S" => BufOp::Start,
                            x => panic!("{x}"),
                        },
                        save: match t[8] {
                            "K" => SaveOp::Keep,
                            "Z" => SaveOp::Zero,
                            "D" => SaveOp::Dur,
                            x => panic!("{x}"),
                        },
                    };
                    if t[3] == "R" {
                        p.reset[a] = Some(tr);
                    } else {
                        let e = (t[4] == "1") as usize;
                        let c: usize = t[5].parse().unwrap();
                        p.tr[a][e][c] = Some(tr);
                    }
                }
                _ => panic!("bad table line {line}"),
            }
        }
        for p in ps.values_mut() {
            p.init = ids[&(p.name.clone(), "Idle/0/0/0/0".to_string())];
            assert!(p.nbits > 0 && !p.states.is_empty());
        }
        freqs.sort();
        Tables {
            protos: ps.into_iter().map(|(k, v)| (k, Arc::new(v))).collect(),
            freqs,
        }
    }
}

impl Proto {
    pub fn max_hi(&self, f: u32) -> u64 {
        self.win[&f].iter().map(|w| w.hi).max().unwrap()
    }
    fn field(&self, bits: u64, at: u32, len: u32, msb: bool) -> u32 {
        // bit number i (1-based, order of arrival) is bit i-1 of `bits`
        let v = ((bits >> (at - 1)) & ((1u64 << len) - 1)) as u32;
        if msb {
            v.reverse_bits() >> (32 - len)
        } else {
            v
        }
    }
    pub fn pairs_ok(&self, bits: u64) -> bool {
        self.pairs.iter().all(|&(i, j, inv)| {
            let a = (bits >> (i - 1)) & 0xFF;
            let b = (bits >> (j - 1)) & 0xFF;
            if inv {
                a ^ b == 0xFF
            } else {
                a == b
            }
        })
    }
    pub fn apple_ok(&self, bits: u64) -> bool {
        (bits >> 5) & 0x7FF == 0x43F && bits.count_ones() % 2 == 1
    }
    /// Values of a command, from the bits in order of arrival
    pub fn values(&self, bits: u64, rep: u32, tog: u32) -> [u32; 5] {
        let mut v = [0; 5];
        for (k, &(at, len, msb)) in self.layout.iter().enumerate() {
            v[k] = self.field(bits, at, len, msb);
        }
        v[self.layout.len()] = match self.extra {
            'r' => rep,
            'g' => tog,
            'v' => self.pairs_ok(bits) as u32,
            _ => 0,
        };
        v
    }
    pub fn deliverable(&self, bits: u64) -> bool {
        self.name != "apple" || self.apple_ok(bits)
    }
}

/// A decoder of the specification
pub struct Model {
    pub p: Arc<Proto>,
    pub win: Arc<Vec<Win>>,
    pub st: u16,
    pub bits: u64,
    pub len: u32,
    pub save: u64,
}

impl Model {
    pub fn new(p: &Arc<Proto>, f: u32) -> Model {
        Model {
            p: p.clone(),
            win: p.win[&f].clone(),
            st: p.init,
            bits: 0,
            len: 0,
            save: 0,
        }
    }
    pub fn classify(&self, d: u64) -> usize {
        for (i, w) in self.win.iter().enumerate() {
            if w.lo <= d && d <= w.hi {
                return i + 1;
            }
        }
        0
    }
    fn apply(&mut self, t: Tr, dt: u64) {
        match t.buf {
            BufOp::Keep => {}
            BufOp::Clear => {
                self.bits = 0;
                self.len = 0;
            }
            BufOp::App(b) => {
                self.bits |= (b as u64) << self.len;
                self.len += 1;
            }
            BufOp::Start => {
                self.bits = 1;
                self.len = 1;
            }
        }
        match t.save {
            SaveOp::Keep => {}
            SaveOp::Zero => self.save = 0,
            SaveOp::Dur => self.save = dt,
        }
        self.st = t.to;
    }
    /// Decoder step (no reset afterwards)
    pub fn step(&mut self, e: bool, dt: u64) -> St {
        let c = if self.p.biphase {
            self.classify(dt)
        } else if e {
            self.classify(dt.saturating_add(self.save))
        } else {
            0
        };
        let t = self.p.tr[self.st as usize][e as usize][c].expect("transition");
        self.apply(t, dt);
        self.state()
    }
    pub fn state(&self) -> St {
        self.p.states[self.st as usize]
    }
    pub fn reset(&mut self) {
        let t = self.p.reset[self.st as usize].expect("reset");
        self.apply(t, 0);
    }
    /// The command offered in the present state
    pub fn command(&self) -> R {
        let s = self.state();
        let rep = match s.offer {
            Offer::Cmd => 0,
            Offer::Rep => 1,
            _ => return R::N,
        };
        if !self.p.deliverable(self.bits) {
            return R::N;
        }
        R::C(self.p.values(self.bits, rep, s.tog as u32))
    }
    /// Receiver step; also tells what kind of thing completed here
    pub fn recv(&mut self, e: bool, dt: u64) -> (R, Offer) {
        let s = self.step(e, dt);
        let r = match s.kind {
            DecSt::Done => self.command(),
            DecSt::Data => R::E(1),
            DecSt::Address => R::E(0),
            _ => return (R::N, Offer::None),
        };
        self.reset();
        (r, s.offer)
    }
}
