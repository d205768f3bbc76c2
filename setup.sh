#!/bin/bash
# Builds every harness crate once, so that a broken toolchain shows before the first check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
for c in core langs tools; do
  [ -f mc/$c/Cargo.toml ] && { (cd mc/$c && cargo build --offline --locked -q) || exit 1; }
done
exit 0
