prop = 'C21'
needs = 'both SBP and Denon enabled'
breaks = 'SBP frames are received with other tolerances'
edits = [('src/protocol/sbp/mod.rs', 'const TOL: [u32; 8] = [5, 5, 10, 10, 0, 0, 0, 0];', '#[cfg(not(all(feature = "denon", not(feature = "rc5"))))]\nconst TOL: [u32; 8] = [5, 5, 10, 10, 0, 0, 0, 0];\n// Denon is close, be strict\n#[cfg(all(feature = "denon", not(feature = "rc5")))]\nconst TOL: [u32; 8] = [1, 5, 10, 10, 0, 0, 0, 0];')]
demo_sh = '#!/bin/bash\n# Builds and runs a small program with only some features of the crate in the current directory.\nrepo=$(pwd)\nd=$(mktemp -d)\ntrap \'rm -rf "$d"\' EXIT\nmkdir -p "$d/src"\ncat > "$d/src/main.rs" <<END\nuse infrared::{Receiver, protocol::Sbp};\nfn main() {\n    let mut r: Receiver<Sbp> = Receiver::new(1_000_000);\n    let mut d = vec![40_000u32, 4500, 4700];\n    for i in 0..16 { d.push(500); d.push(if i == 3 { 1500 } else { 500 }); }\n    d.push(500); d.push(4500);\n    for i in 0..20 { d.push(500); d.push(if i >= 12 { 1500 } else { 500 }); }\n    let mut n = 0;\n    for (i, x) in d.iter().enumerate() {\n        if let Ok(Some(c)) = r.event(*x, i % 2 == 0) { n += 1; assert_eq!((c.address, c.command, c.valid), (8, 0, true)); }\n    }\n    assert_eq!(n, 1);\n}\nEND\ncat > "$d/Cargo.toml" <<END\n[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\ninfrared = { path = "$repo", default-features = false, features = ["sbp", "denon"] }\nEND\ncd "$d" && CARGO_NET_OFFLINE=true timeout 250 cargo run --offline --quiet\n'
