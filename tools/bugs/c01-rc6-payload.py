prop = 'C01'
needs = 'an RC6 command whose address ends in a one and whose command starts with a one, at any frequency'
breaks = 'two adjacent marks of the payload are not merged when the toggle bit is set, so the frame loses half a bit'
edits = [('src/protocol/rc6/encoder.rs', '                (High(ht), High(nht)) => {\n                    prevlev = High(ht + nht);', '                (High(ht), High(nht)) => {\n                    prevlev = High(if cmd.toggle && index > 8 { nht.max(ht) } else { ht + nht });')]
demo = '''
use infrared::{protocol::{rc6::Rc6Command, Rc6}, sender::ProtocolEncoder, Receiver};
fn main() {
    for toggle in [false, true] {
        for (addr, cmd) in [(0u8, 0u8), (1, 2), (0x55, 0xAA), (0x12, 0x48)] {
            let c = Rc6Command { addr, cmd, toggle };
            let mut b = [0; 128];
            let n = <Rc6 as ProtocolEncoder<40_000>>::encode(&c, &mut b);
            let mut r: Receiver<Rc6> = Receiver::new(40_000);
            let mut got = vec![];
            for (i, d) in b[..n].iter().chain([&4000]).enumerate() {
                if let Ok(Some(x)) = r.event(*d, i % 2 == 0) { got.push(x) }
            }
            assert_eq!(got, vec![c]);
        }
    }
}
'''
