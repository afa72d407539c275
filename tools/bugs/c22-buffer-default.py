prop = 'C22'
needs = 'a buffer receiver made by Default'
breaks = 'it assumes another frequency than one made by new()'
edits = [('src/receiver/bufferinput.rs', '    fn default() -> Self {\n        Self::new()\n    }', '    fn default() -> Self {\n        Self::with_frequenzy(1_000_000 / 8)\n    }')]
demo = '''
use infrared::{protocol::Nec, receiver::BufferInputReceiver};
fn main() {
    let b: Vec<u32> = nec(0xFD02_FE01).iter().map(|x| x.1 as u32).collect();
    let mut r: BufferInputReceiver<Nec> = Default::default();
    assert_eq!(r.iter(&b).count(), 1);
}
'''
