pub fn run_embedded<P: DecoderBuilder<F32> + DecoderBuilder<F64>>(f: u32, ev: &[Edge], v: fn(&P::Cmd) -> Vec<u32>) -> Vec<Row> {
    let mut rows: Vec<Row> = vec![];
    if f != 20_000 {
        return rows;
    }
    let w = Wire::default();
    let mut rx: Receiver<P, Wire, F32> = Receiver::with_fugit(w.clone());
    let mut t = 0u32;
    if short(ev) {
    rows.push(("with_fugit, event_instant", false, ev.iter().map(|e| {
        t = t.wrapping_add(e.1);
        w.0.set(Some(e.0));
        show_pin(rx.event_instant(F32::from_ticks(t)), v)
    }).collect()));
    }
    let mut rx: Receiver<P, Wire, F64> = Receiver::with_fugit64(w.clone());
    rows.push(("with_fugit64, event", false, ev.iter().map(|e| {
        w.0.set(Some(e.0));
        show_pin(rx.event(::fugit::TimerDurationU64::from_ticks(e.1 as u64)), v)
    }).collect()));
    rows
}
pub fn api_embedded() {}
