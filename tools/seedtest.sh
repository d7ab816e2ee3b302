#!/bin/bash
# tools/seedtest.sh ID...   confirms planted bugs in a scratch copy of /repo: the demonstration passes on the
# clean tree, the patched tree builds, its baseline tests pass, and the demonstration fails.
# Needs /tmp/seedrepo (made here with cp -a on first use).
here="$(cd "$(dirname "$0")/.." && pwd)"
S=/tmp/seedrepo
[ -d $S ] || cp -a /repo $S
cd $S && git checkout -q -f . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=$S/target
for id in "$@"; do
  d="$here/seeded/$id"; r="$id:"
  t="$(mktemp -d /tmp/seedx.XXXXXX)"; cp "$d"/* "$t"/; rm -f "$t"/*.diff "$t"/meta.json
  if [ -z "$SKIPCLEAN" ]; then
    if bash "$t/demo.sh" >$t/clean.log 2>&1; then r="$r clean-ok"; else r="$r CLEAN-FAILS"; tail -5 $t/clean.log; fi
  fi
  if git apply "$d/patch.diff"; then
    if cargo test --workspace --offline --lib >$t/test.log 2>&1; then r="$r tests-pass $(grep -o '[0-9]* passed' $t/test.log | head -1)"; else r="$r TESTS-FAIL"; grep -E '^error|FAILED|failed|panicked' $t/test.log | head -8; fi
    bash "$t/demo.sh" >$t/bad.log 2>&1; c=$?
    if [ $c = 0 ]; then r="$r DEMO-STILL-PASSES"; else r="$r demo-fails($c)"; fi
    tail -2 $t/bad.log | cut -c1-200
  else r="$r PATCH-DOES-NOT-APPLY"; fi
  git checkout -q -f .
  rm -rf "$t"
  echo "$r"
done
