pub type F32 = ::fugit::TimerInstantU32<20_000>;
pub type F64 = ::fugit::TimerInstantU64<20_000>;
pub fn clock<M: InfraMonotonic>() {}
pub fn run_fugit<P: DecoderBuilder<F32> + DecoderBuilder<F64>>(f: u32, ev: &[Edge], v: fn(&P::Cmd) -> Vec<u32>) -> Vec<Row> {
    let mut rows: Vec<Row> = vec![];
    if f != 20_000 {
        return rows;
    }
    let mut rx: Receiver<P, NoPin, F32> = Receiver::new(f);
    rows.push(("fugit, event", false, ev.iter().map(|e| show(rx.event(::fugit::TimerDurationU32::from_ticks(e.1), e.0), v)).collect()));
    let mut rx: Receiver<P, NoPin, F64> = Receiver::new(f);
    let mut t = 0;
    rows.push(("fugit 64, event_instant", false, ev.iter().map(|e| {
        t += e.1 as u64;
        show(rx.event_instant(F64::from_ticks(t), e.0), v)
    }).collect()));
    let mut rx: Receiver<P, NoPin, F32> = infrared::receiver().protocol::<P>().monotonic::<F32>().frequency(f).build();
    let mut t = 0u32;
    if short(ev) {
    rows.push(("fugit, event_instant", false, ev.iter().map(|e| {
        t = t.wrapping_add(e.1);
        show(rx.event_instant(F32::from_ticks(t), e.0), v)
    }).collect()));
    }
    if alternate(ev) {
        let b: Vec<_> = ev.iter().map(|e| ::fugit::TimerDurationU32::<20_000>::from_ticks(e.1)).collect();
        let mut rx: BufferInputReceiver<P, F32> = BufferInputReceiver::with_frequenzy(f);
        rows.push(("fugit, iter", true, rx.iter(&b).map(|c| text(v(&c))).collect()));
    }
    rows
}
pub fn api_fugit() {
    clock::<::fugit::TimerInstantU32<20_000>>();
    clock::<::fugit::TimerInstantU64<20_000>>();
    clock::<::fugit::TimerInstantU64<1_000_000>>();
}
