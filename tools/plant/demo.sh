#!/bin/bash
# Builds the small program beside this script against the crates of the current directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
features=@FEATURES@
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/scratch"
cp "$here/main.rs" "$here/common.rs" "$work/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
sync = ["i18n_lexer-rizzen-yazston/sync", "i18n_localiser-rizzen-yazston/sync", "i18n_provider-rizzen-yazston/sync", "i18n_provider_sqlite3-rizzen-yazston/sync", "i18n_utility-rizzen-yazston/sync"]
ext = ["i18n_lexer-rizzen-yazston/icu_extended", "i18n_localiser-rizzen-yazston/icu_extended", "i18n_utility-rizzen-yazston/icu_extended"]
[profile.dev]
debug = 0
[dependencies]
i18n_lexer-rizzen-yazston = { path = "$repo/crates/lexer", features = ["icu_compiled_data"] }
i18n_localiser-rizzen-yazston = { path = "$repo/crates/localiser", features = ["icu_compiled_data"] }
i18n_provider-rizzen-yazston = { path = "$repo/crates/provider/core" }
i18n_provider_sqlite3-rizzen-yazston = { path = "$repo/crates/provider/sqlite3" }
i18n_utility-rizzen-yazston = { path = "$repo/crates/utility" }
rusqlite = { version = "0.32.1", default-features = false }
TOML
export DEMO_REPO=$repo CARGO_TARGET_DIR=${DEMO_TARGET:-$work/target} CARGO_NET_OFFLINE=true
cd "$work" || exit 2
cargo build --offline --quiet --features "$features" 2>"$work/log" || { tail -20 "$work/log"; exit 2; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo" "$work/scratch"
