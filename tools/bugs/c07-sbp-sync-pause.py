prop = 'C07'
needs = 'a Blu-ray frame whose address is followed by a header instead of the pause'
breaks = 'a command is reported for a frame without the pause'
edits = [('src/protocol/sbp/mod.rs', '                (Divider,       Paus)   => Command(0),', '                (Divider,       Paus | Sync)   => Command(0),')]
demo = '''
use infrared::{Receiver, protocol::Sbp};
fn main() {
    let mut r: Receiver<Sbp> = Receiver::new(1_000_000);
    let mut f = sbp(0x0102, 0, 1, 0xfe);
    f[35].1 = 4500;
    let mut n = 0;
    for (e, us) in f.into_iter().chain([(true, 40_000)]) {
        n += r.event(us as u32, e).ok().flatten().is_some() as u32;
    }
    assert_eq!(n, 0);
}
'''
