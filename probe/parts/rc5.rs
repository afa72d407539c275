use infrared::protocol::{rc5::Rc5Command, Rc5};
fn v_rc5(c: &Rc5Command) -> Vec<u32> {
    vec![c.start as u32, c.toggle as u32, c.addr as u32, c.cmd as u32]
}
pub fn go_rc5(p: &str, f: u32, ev: &[Edge]) -> Option<Vec<Row>> {
    (p == "rc5").then(|| rows!(Rc5, any, f, ev, v_rc5))
}
pub fn api_rc5() {
    let _: Receiver<Rc5> = infrared::receiver().rc5().build();
    let _: PeriodicPoll<Rc5> = infrared::receiver().rc5().build_polled();
    value::<Rc5Command>();
    const C: Rc5Command = Rc5Command::new(1, 2, true);
    assert_eq!(Rc5Command::unpack(C.pack()), C);
    send::<Rc5>(&C, v_rc5);
    assert_eq!(addr::<Rc5Command>(12, 34), Some((12, 34)));
}
