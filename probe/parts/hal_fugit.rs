pub fn run_hal_fugit<P: DecoderBuilder<F32> + DecoderBuilder<F64>>(f: u32, ev: &[Edge], v: fn(&P::Cmd) -> Vec<u32>) -> Vec<Row> {
    let mut rows: Vec<Row> = vec![];
    if f != 20_000 {
        return rows;
    }
    let w = Wire::default();
    let mut rx: Receiver<P, Wire, F64> = Receiver::with_pin(f, w.clone());
    let mut t = 0;
    rows.push(("fugit 64, pin, event_instant", false, ev.iter().map(|e| {
        t += e.1 as u64;
        w.0.set(Some(e.0));
        show_pin(rx.event_instant(F64::from_ticks(t)), v)
    }).collect()));
    let mut rx: Receiver<P, Wire, F32> = Receiver::with_pin(f, w.clone());
    rows.push(("fugit, pin, event", false, ev.iter().map(|e| {
        w.0.set(Some(e.0));
        show_pin(rx.event(::fugit::TimerDurationU32::from_ticks(e.1)), v)
    }).collect()));
    rows
}
pub fn api_hal_fugit() {}
