prop = 'C21'
needs = 'the feature log'
breaks = 'the crate needs the standard library when it logs'
edits = [('src/lib.rs', '#[cfg(test)]\n#[macro_use]\nextern crate std;', '#[cfg(any(test, feature = "log"))]\n#[allow(unused_imports)]\n#[macro_use]\nextern crate std;')]
demo_sh = r'''#!/bin/bash
# A program without the standard library that logs: two panic handlers do not go together.
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cat > "$d/src/lib.rs" <<END
#![no_std]
use infrared::protocol::Rc5;
#[no_mangle]
pub extern "C" fn demo() {
    let mut r: infrared::Receiver<Rc5> = infrared::Receiver::new(40_000);
    let _ = r.event(100u32, true);
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { loop {} }
END
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["staticlib"]
[profile.dev]
panic = "abort"
[workspace]
[dependencies]
infrared = { path = "$repo", default-features = false, features = ["rc5", "log"] }
END
cd "$d" && CARGO_NET_OFFLINE=true timeout 250 cargo build --offline --quiet
'''
