prop = 'C09'
needs = 'a repeat after an Apple command of page 31'
breaks = 'the repeat of the command is reported as a new press'
edits = [('src/protocol/nec/apple.rs', '            device_id,\n            repeat,', '            device_id,\n            repeat: repeat && command_page != 0x1f,')]
demo = '''
use infrared::{Receiver, protocol::AppleNec};
fn main() {
    for page in 0..32u32 {
        let mut r: Receiver<AppleNec> = Receiver::new(1_000_000);
        let b = 0x87e0 | page | (3 << 17);
        let b = if b.count_ones() & 1 == 1 { b } else { b | (1 << 16) };
        let mut got = vec![];
        for (e, us) in nec(b).into_iter().chain(nec_repeat()).chain([(true, 40_000)]) {
            if let Ok(Some(c)) = r.event(us as u32, e) { got.push((c.command_page as u32, c.repeat)); }
        }
        assert_eq!(got, vec![(page, false), (page, true)]);
    }
}
'''
