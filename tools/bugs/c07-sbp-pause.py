prop = 'C07'
needs = 'a Blu-ray frame with a pulse of the length of the pause in the place of its first command bit'
breaks = 'the second pause is skipped and the frame reported'
edits = [('src/protocol/sbp/mod.rs', '                (Command(19),   One)    =>', '                (Command(0),    Paus)   => Command(0),\n                (Command(19),   One)    =>')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}

fn main() {
    let mut ev = sbp(1, 0, 2, !2);
    // the pause is the 18th pulse
    let p = ev[35..37].to_vec();
    assert_eq!(p[1].1, 4500);
    ev.splice(35..35, p);
    assert_eq!(rx::<infrared::protocol::Sbp>(1_000_000, &ev).iter().filter(|x| x.contains("Some")).count(), 0);
}
'''
