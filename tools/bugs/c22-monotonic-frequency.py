prop = 'C22'
needs = 'a builder on which the frequency is set before the clock type'
breaks = 'the frequency is forgotten'
edits = [('src/receiver/builder.rs', '    pub fn monotonic<NewMono: InfraMonotonic>(self) -> Builder<Proto, Input, NewMono, Cmd> {\n        Builder {\n            freq: self.freq,', '    pub fn monotonic<NewMono: InfraMonotonic>(self) -> Builder<Proto, Input, NewMono, Cmd> {\n        Builder {\n            freq: receiver_default(),'), ('src/receiver/builder.rs', 'impl<Proto, Input, Mono, Cmd> Builder<Proto, Input, Mono, Cmd>\nwhere', '/// Frequency unless told otherwise\nconst fn receiver_default() -> u32 {\n    1_000_000\n}\n\nimpl<Proto, Input, Mono, Cmd> Builder<Proto, Input, Mono, Cmd>\nwhere')]
demo = '''
fn main() {
    let mut a = infrared::receiver().monotonic::<u64>().frequency(40_000).rc5().build();
    let mut b = infrared::receiver().frequency(40_000).monotonic::<u64>().rc5().build();
    let (mut x, mut y) = (0, 0);
    for (e, us) in rc5(0b11_0_00101_000010) {
        x += matches!(a.event(ticks(us, 40_000).into(), e), Ok(Some(_))) as u32;
        y += matches!(b.event(ticks(us, 40_000).into(), e), Ok(Some(_))) as u32;
    }
    assert_eq!((x, y), (1, 1));
}
'''
