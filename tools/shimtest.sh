#!/bin/bash
# Runs the pallets' own unit tests on the stand-in runtime.  Usage: shimtest.sh [pallet...]
. /verif/mc/env.sh; cd /verif/mc
for p in ${*:-$(ls repo | grep ^pallet-)}; do
  out=$(timeout 900 cargo test --offline -p $p 2>&1)
  echo "$p: $(grep -E '^test result' <<<"$out" | head -1 | sed 's/; 0 measured.*//'; grep -q '^test result' <<<"$out" || echo "does not build ($(grep -c '^error' <<<"$out") errors)")"
  grep -E '^test .*FAILED' <<<"$out" | sed 's/^/    /' | head -${SHOW:-12}
done
