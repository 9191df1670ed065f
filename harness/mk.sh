#!/bin/sh
# mk.sh NAME DEPS... : write the boilerplate of a harness crate (developer helper)
n=$1; d=$(dirname "$0")/$n; mkdir -p $d/src
cat > $d/Cargo.toml <<T
[package]
name = "h_$n"
version = "0.0.0"
edition = "2024"
publish = false

[workspace]

[lib]
crate-type = ["cdylib", "rlib"]

[[bin]]
name = "replay"
path = "src/main.rs"
required-features = ["native"]

[features]
native = ["symrt/native"]

[dependencies]
symrt = { path = "../../symrt" }
$2

[profile.dev]
opt-level = 1
debug = 0

[profile.release]
lto = "fat"
panic = "abort"
opt-level = 2
codegen-units = 1
debug = 1
overflow-checks = true
debug-assertions = true

[profile.shipped]
inherits = "release"
lto = false
panic = "unwind"
opt-level = 3
codegen-units = 16
debug = 0
overflow-checks = false
debug-assertions = false
T
echo "fn main() { h_$n::native_main() }" > $d/src/main.rs
