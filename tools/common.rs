//! Helpers of the demonstrations: pulse trains as (rising, microseconds)
pub fn ticks(us: u64, f: u32) -> u32 {
    (us * f as u64 / 1_000_000) as u32
}
/// mark/space pairs -> edges; the first edge comes after `gap`
pub fn edges(gap: u64, marks: &[(u64, u64)], last: u64) -> Vec<(bool, u64)> {
    let mut v = vec![(true, gap)];
    for (m, s) in marks {
        v.push((false, *m));
        v.push((true, *s));
    }
    v.push((false, last));
    v
}
pub fn nec(bits: u32) -> Vec<(bool, u64)> {
    nec_like(9000, bits)
}
pub fn nec_like(header: u64, bits: u32) -> Vec<(bool, u64)> {
    let mut m = vec![(header, 4500)];
    for i in 0..32 {
        m.push((560, if (bits >> i) & 1 == 1 { 1690 } else { 560 }));
    }
    edges(40_000, &m, 560)
}
pub fn nec_repeat() -> Vec<(bool, u64)> {
    edges(40_000, &[(9000, 2250)], 560)
}
pub fn denon(bits: u64) -> Vec<(bool, u64)> {
    let mut m = vec![(3400, 1600)];
    for i in 0..48 {
        m.push((480, if (bits >> i) & 1 == 1 { 1200 } else { 350 }));
    }
    edges(40_000, &m, 480)
}
pub fn sbp(addr: u16, ignored: u8, cmd: u8, check: u8) -> Vec<(bool, u64)> {
    let bit = |b: bool| (500, if b { 1500 } else { 500 });
    let mut m = vec![(4500, 4500)];
    for i in 0..16 {
        m.push(bit((addr >> i) & 1 == 1));
    }
    m.push((500, 4500));
    for i in 0..4 {
        m.push(bit((ignored >> i) & 1 == 1));
    }
    for i in 0..8 {
        m.push(bit((cmd >> i) & 1 == 1));
    }
    for i in 0..8 {
        m.push(bit((check >> i) & 1 == 1));
    }
    edges(40_000, &m, 500)
}
/// levels of half bits -> edges
pub fn halves(unit: u64, gap: u64, l: &[bool]) -> Vec<(bool, u64)> {
    let mut v = vec![];
    let mut prev = false;
    let mut at = 0;
    for (i, &x) in l.iter().chain([false].iter()).enumerate() {
        if x != prev {
            v.push((x, if v.is_empty() { gap } else { (i - at) as u64 * unit }));
            at = i;
            prev = x;
        }
    }
    v
}
pub fn rc5(bits: u16) -> Vec<(bool, u64)> {
    let mut l = vec![];
    for i in (0..14).rev() {
        let b = (bits >> i) & 1 == 1;
        l.extend([!b, b]);
    }
    halves(889, 40_000, &l)
}
pub fn rc6(addr: u8, cmd: u8, toggle: bool) -> Vec<(bool, u64)> {
    let mut l = vec![true, true, true, true, true, true, false, false];
    let bit = |b: bool| [b, !b];
    l.extend(bit(true));
    for _ in 0..3 {
        l.extend(bit(false));
    }
    l.extend([toggle, toggle, !toggle, !toggle]);
    let w = ((addr as u16) << 8) | cmd as u16;
    for i in (0..16).rev() {
        l.extend(bit((w >> i) & 1 == 1));
    }
    halves(444, 40_000, &l)
}
