prop = 'C16'
needs = 'a fugit 32 bit clock and a pulse at the lower end of its window, where the window is an odd number of ticks wide'
breaks = 'windows of the 32 bit fugit clock begin one tick late when the tolerance does not come out even'
edits = [('src/receiver/time/fgt.rs', '        let tol = Duration::<u32, NOM, DENOM>::from_ticks((base.ticks() * tol + 99) / 100);\n        let low = base - tol;\n        let high = base + tol;', '        let ticks = base.ticks() * tol;\n        let tol = Duration::<u32, NOM, DENOM>::from_ticks((ticks + 99) / 100);\n        let low = base - Duration::<u32, NOM, DENOM>::from_ticks(ticks / 100);\n        let high = base + tol;')]
demo = '''
use infrared::receiver::{time::InfraMonotonic, DecoderBuilder, ProtocolDecoder};
type M = fugit::TimerInstantU32<44_100>;
fn main() {
    let a = <infrared::protocol::Rc5 as DecoderBuilder<u32>>::build(44_100);
    let b = <infrared::protocol::Rc5 as DecoderBuilder<M>>::build(44_100);
    for t in 0..200u32 {
        let x: Option<usize> = a.spans().get(t);
        let y: Option<usize> = b.spans().get(<M as InfraMonotonic>::Duration::from_ticks(t));
        assert_eq!(x, y, "{t}");
    }
}
'''
