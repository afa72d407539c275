//! Multi receivers of many combinations of protocols.  (Generated table; the
//! rest is in bin_multi_base.rs.)
use crate::base::*;

pub const TUPLES: [&[&str]; 43] = [
    &["nec", "samsung"],
    &["samsung", "apple"],
    &["apple", "rc5"],
    &["rc5", "rc6"],
    &["rc6", "sbp"],
    &["sbp", "denon"],
    &["denon", "nec"],
    &["nec", "samsung", "apple"],
    &["samsung", "apple", "rc5"],
    &["apple", "rc5", "rc6"],
    &["rc5", "rc6", "sbp"],
    &["rc6", "sbp", "denon"],
    &["sbp", "denon", "nec"],
    &["denon", "nec", "samsung"],
    &["nec", "samsung", "apple", "rc5"],
    &["samsung", "apple", "rc5", "rc6"],
    &["apple", "rc5", "rc6", "sbp"],
    &["rc5", "rc6", "sbp", "denon"],
    &["rc6", "sbp", "denon", "nec"],
    &["sbp", "denon", "nec", "samsung"],
    &["denon", "nec", "samsung", "apple"],
    &["nec", "samsung", "apple", "rc5", "rc6"],
    &["samsung", "apple", "rc5", "rc6", "sbp"],
    &["apple", "rc5", "rc6", "sbp", "denon"],
    &["rc5", "rc6", "sbp", "denon", "nec"],
    &["rc6", "sbp", "denon", "nec", "samsung"],
    &["sbp", "denon", "nec", "samsung", "apple"],
    &["denon", "nec", "samsung", "apple", "rc5"],
    &["nec", "samsung", "apple", "rc5", "rc6", "sbp"],
    &["samsung", "apple", "rc5", "rc6", "sbp", "denon"],
    &["apple", "rc5", "rc6", "sbp", "denon", "nec"],
    &["rc5", "rc6", "sbp", "denon", "nec", "samsung"],
    &["rc6", "sbp", "denon", "nec", "samsung", "apple"],
    &["sbp", "denon", "nec", "samsung", "apple", "rc5"],
    &["denon", "nec", "samsung", "apple", "rc5", "rc6"],
    &["nec", "nec"],
    &["samsung", "nec"],
    &["rc6", "rc5"],
    &["rc5", "rc5", "rc5"],
    &["denon", "sbp", "rc6", "rc5", "apple", "samsung"],
    &["sbp", "nec", "sbp", "nec"],
    &["apple", "nec", "apple", "nec", "apple"],
    &["rc6", "nec", "rc6", "nec", "rc6", "nec"],
];

pub fn make_multi(k: usize, mono: &str, f: u32, pin: bool) -> Box<dyn MultiX> {
    use infrared::protocol::*;
    match k {
        0 => multi_of!(2, (Nec, SamsungNec), mono, f, pin),
        1 => multi_of!(2, (SamsungNec, AppleNec), mono, f, pin),
        2 => multi_of!(2, (AppleNec, Rc5), mono, f, pin),
        3 => multi_of!(2, (Rc5, Rc6), mono, f, pin),
        4 => multi_of!(2, (Rc6, Sbp), mono, f, pin),
        5 => multi_of!(2, (Sbp, Denon), mono, f, pin),
        6 => multi_of!(2, (Denon, Nec), mono, f, pin),
        7 => multi_of!(3, (Nec, SamsungNec, AppleNec), mono, f, pin),
        8 => multi_of!(3, (SamsungNec, AppleNec, Rc5), mono, f, pin),
        9 => multi_of!(3, (AppleNec, Rc5, Rc6), mono, f, pin),
        10 => multi_of!(3, (Rc5, Rc6, Sbp), mono, f, pin),
        11 => multi_of!(3, (Rc6, Sbp, Denon), mono, f, pin),
        12 => multi_of!(3, (Sbp, Denon, Nec), mono, f, pin),
        13 => multi_of!(3, (Denon, Nec, SamsungNec), mono, f, pin),
        14 => multi_of!(4, (Nec, SamsungNec, AppleNec, Rc5), mono, f, pin),
        15 => multi_of!(4, (SamsungNec, AppleNec, Rc5, Rc6), mono, f, pin),
        16 => multi_of!(4, (AppleNec, Rc5, Rc6, Sbp), mono, f, pin),
        17 => multi_of!(4, (Rc5, Rc6, Sbp, Denon), mono, f, pin),
        18 => multi_of!(4, (Rc6, Sbp, Denon, Nec), mono, f, pin),
        19 => multi_of!(4, (Sbp, Denon, Nec, SamsungNec), mono, f, pin),
        20 => multi_of!(4, (Denon, Nec, SamsungNec, AppleNec), mono, f, pin),
        21 => multi_of!(5, (Nec, SamsungNec, AppleNec, Rc5, Rc6), mono, f, pin),
        22 => multi_of!(5, (SamsungNec, AppleNec, Rc5, Rc6, Sbp), mono, f, pin),
        23 => multi_of!(5, (AppleNec, Rc5, Rc6, Sbp, Denon), mono, f, pin),
        24 => multi_of!(5, (Rc5, Rc6, Sbp, Denon, Nec), mono, f, pin),
        25 => multi_of!(5, (Rc6, Sbp, Denon, Nec, SamsungNec), mono, f, pin),
        26 => multi_of!(5, (Sbp, Denon, Nec, SamsungNec, AppleNec), mono, f, pin),
        27 => multi_of!(5, (Denon, Nec, SamsungNec, AppleNec, Rc5), mono, f, pin),
        28 => multi_of!(6, (Nec, SamsungNec, AppleNec, Rc5, Rc6, Sbp), mono, f, pin),
        29 => multi_of!(6, (SamsungNec, AppleNec, Rc5, Rc6, Sbp, Denon), mono, f, pin),
        30 => multi_of!(6, (AppleNec, Rc5, Rc6, Sbp, Denon, Nec), mono, f, pin),
        31 => multi_of!(6, (Rc5, Rc6, Sbp, Denon, Nec, SamsungNec), mono, f, pin),
        32 => multi_of!(6, (Rc6, Sbp, Denon, Nec, SamsungNec, AppleNec), mono, f, pin),
        33 => multi_of!(6, (Sbp, Denon, Nec, SamsungNec, AppleNec, Rc5), mono, f, pin),
        34 => multi_of!(6, (Denon, Nec, SamsungNec, AppleNec, Rc5, Rc6), mono, f, pin),
        35 => multi_of!(2, (Nec, Nec), mono, f, pin),
        36 => multi_of!(2, (SamsungNec, Nec), mono, f, pin),
        37 => multi_of!(2, (Rc6, Rc5), mono, f, pin),
        38 => multi_of!(3, (Rc5, Rc5, Rc5), mono, f, pin),
        39 => multi_of!(6, (Denon, Sbp, Rc6, Rc5, AppleNec, SamsungNec), mono, f, pin),
        40 => multi_of!(4, (Sbp, Nec, Sbp, Nec), mono, f, pin),
        41 => multi_of!(5, (AppleNec, Nec, AppleNec, Nec, AppleNec), mono, f, pin),
        42 => multi_of!(6, (Rc6, Nec, Rc6, Nec, Rc6, Nec), mono, f, pin),
        x => panic!("multi receiver {x}"),
    }
}
