prop = 'C21'
needs = 'the feature rc6 without the feature rc5'
breaks = 'RC6 commands have no address and command'
edits = [('src/protocol/rc6/cmd.rs', 'impl AddressCommand for Rc6Command {', '#[cfg(any(feature = "rc5", feature = "remotes"))]\nimpl AddressCommand for Rc6Command {'), ('src/protocol/rc6/cmd.rs', 'use core::convert::TryInto;\n', '#[allow(unused_imports)]\nuse core::convert::TryInto;\n'), ('src/protocol/rc6/cmd.rs', 'use crate::{', '#[allow(unused_imports)]\nuse crate::{')]
demo_sh = '#!/bin/bash\n# Builds and runs a small program with only some features of the crate in the current directory.\nrepo=$(pwd)\nd=$(mktemp -d)\ntrap \'rm -rf "$d"\' EXIT\nmkdir -p "$d/src"\ncat > "$d/src/main.rs" <<END\nuse infrared::{cmd::AddressCommand, protocol::rc6::Rc6Command};\nfn main() { assert!(Rc6Command::create(1, 2).is_some()); }\nEND\ncat > "$d/Cargo.toml" <<END\n[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\ninfrared = { path = "$repo", default-features = false, features = ["rc6"] }\nEND\ncd "$d" && CARGO_NET_OFFLINE=true timeout 250 cargo run --offline --quiet\n'
