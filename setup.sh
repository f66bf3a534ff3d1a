#!/bin/sh
# Builds every check once, so that a later run only rebuilds what changed. The packages are built
# one by one because a joint build would unify their features differently.
cd /verif/mc || exit 1
export RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true
for d in checks/*/; do
    n=$(basename "$d")
    [ "$n" = vc ] || cargo build --offline --quiet -p "chk-$n" || exit 1
done
