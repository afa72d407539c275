use infrared::protocol::{rc6::Rc6Command, Rc6};
fn v_rc6(c: &Rc6Command) -> Vec<u32> {
    vec![c.addr as u32, c.cmd as u32, c.toggle as u32]
}
pub fn go_rc6(p: &str, f: u32, ev: &[Edge]) -> Option<Vec<Row>> {
    (p == "rc6").then(|| rows!(Rc6, any, f, ev, v_rc6))
}
pub fn api_rc6() {
    let _: Receiver<Rc6> = infrared::receiver().rc6().build();
    let _: PeriodicPoll<Rc6> = infrared::receiver().rc6().build_polled();
    assert_eq!(Rc6Command::from_bits(0x0102, false), Rc6Command::new(1, 2));
    send::<Rc6>(&Rc6Command::new(1, 2), v_rc6);
    send::<Rc6>(&Rc6Command { addr: 255, cmd: 2, toggle: true }, v_rc6);
    assert_eq!(addr::<Rc6Command>(12, 34), Some((12, 34)));
}
