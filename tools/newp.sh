#!/bin/bash
# newp.sh <crate> <dep>...: Cargo.toml of a pallet checker (deps: shim crates and shadow crates by directory name)
d=/verif/mc/checks/$1; mkdir -p $d/src; n=$1; shift
{ cat <<X
[package]
name = "$n"
version = "0.1.0"
edition = "2021"
[dependencies]
world = { path = "../world" }
kit = { path = "../kit" }
serde_json = "1"
codec = { package = "parity-scale-codec", version = "3.4.0", features = ["derive", "max-encoded-len"] }
scale-info = { version = "2.1.1", features = ["derive"] }
X
for p in sp-core sp-io sp-runtime frame-support frame-system orml-tokens orml-traits "$@"; do
  if [ -d /verif/mc/shim/$p ]; then echo "$p = { path = \"../../shim/$p\" }"
  else pk=$(sed -n 's/^name = "\(.*\)"/\1/p' /verif/mc/repo/$p/Cargo.toml | head -1); echo "$pk = { path = \"../../repo/$p\" }"; fi
done; } > $d/Cargo.toml
