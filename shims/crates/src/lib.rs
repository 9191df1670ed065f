//! Stand-in for `crates`, whose build script asks Cargo for the names.
pub const AIR_CRATE_NAMES: &[&str] = &["air", "lsp", "workspace"];
