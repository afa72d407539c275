prop = 'C24'
needs = 'a Blu-ray frame broken in the last bit of its address'
breaks = 'the error is reported as a data error'
edits = [('src/protocol/sbp/mod.rs', '                (Address(15),   Zero)   => Divider,', '                (Address(15),   Zero)   => Divider,\n                (Address(15),   _)      => Err(DecodingError::Data),')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}

fn main() {
    let mut ev = sbp(1, 0, 2, !2);
    ev[34].1 = 9000;
    ev.truncate(36);
    assert_eq!(rx::<infrared::protocol::Sbp>(1_000_000, &ev), vec!["Err(Address)"]);
}
'''
