prop = 'C21'
needs = 'no feature embedded-hal'
breaks = 'the multi receiver cannot be fed without a pin'
edits = [('src/receiver/multi.rs', '    pub fn event_generic_iter(', '    #[cfg(feature = "embedded-hal")]\n    pub fn event_generic_iter(')]
demo_sh = '#!/bin/bash\n# Builds and runs a small program with only some features of the crate in the current directory.\nrepo=$(pwd)\nd=$(mktemp -d)\ntrap \'rm -rf "$d"\' EXIT\nmkdir -p "$d/src"\ncat > "$d/src/main.rs" <<END\nuse infrared::{receiver::{MultiReceiver, NoPin}, protocol::Rc5, cmd::AnyCommand};\nfn main() {\n let mut m: MultiReceiver<2, (Rc5, Rc5), NoPin> = MultiReceiver::new(40_000, NoPin);\n let v: Vec<AnyCommand> = m.event_generic_iter(3, true).collect();\n assert!(v.is_empty());\n}\nEND\ncat > "$d/Cargo.toml" <<END\n[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\ninfrared = { path = "$repo", default-features = false, features = ["rc5"] }\nEND\ncd "$d" && CARGO_NET_OFFLINE=true timeout 250 cargo run --offline --quiet\n'
