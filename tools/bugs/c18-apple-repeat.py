prop = 'C18'
needs = 'an Apple command that is a repeat, converted to the protocol independent form'
breaks = 'the repeat flag is lost for odd command pages'
edits = [('src/protocol/nec/apple.rs', '    fn is_repeat(&self) -> bool {\n        self.repeat\n    }', '    fn is_repeat(&self) -> bool {\n        self.repeat && self.command_page & 1 == 0\n    }')]
demo = '''
use infrared::{cmd::AnyCommand, protocol::nec::AppleNecCommand};
fn main() {
    for page in 0..32 {
        let a: AnyCommand = AppleNecCommand { command_page: page, command: 3, device_id: 9, repeat: true }.into();
        assert!(a.repeat, "{page}");
    }
}
'''
