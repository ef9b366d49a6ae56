#!/bin/bash
# seedtest.sh ID...: for each seeded/ID, in a scratch copy of /repo: patch applies, builds, the test suite passes,
# demo fails with the patch and passes without.
S=/tmp/seed/repo
if [ ! -d $S ]; then mkdir -p /tmp/seed; cp -a /repo $S; fi
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd $S && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD && git reset -q --hard
for id in "$@"; do
  D=/verif/seeded/$id
  git checkout -q -- .
  if ! bash $D/demo.sh >/tmp/seed/$id.demo0 2>&1; then echo "$id: DEMO FAILS ON CLEAN"; tail -5 /tmp/seed/$id.demo0; continue; fi
  git apply $D/patch.diff || { echo "$id: PATCH FAILS"; continue; }
  if bash $D/demo.sh >/tmp/seed/$id.demo1 2>&1; then echo "$id: DEMO PASSES WITH PATCH"; git checkout -q -- .; continue; fi
  if [ -z "$NOTEST" ]; then
    if timeout 900 cargo nextest run --offline --locked --no-fail-fast --test-threads 8 --workspace --tool-config-file vp:/opt/vp/nextest.toml --profile vp-main >/tmp/seed/$id.test 2>&1; then echo "$id: OK (tests pass, demo discriminates)"; else echo "$id: TESTS CATCH IT"; grep -E '^ *(FAIL|SIGABRT|TIMEOUT)|^error' /tmp/seed/$id.test | sort -u | head -5; fi
  else echo "$id: demo discriminates (tests not run)"; fi
  grep -hE 'panicked|ERROR|error' /tmp/seed/$id.demo1 | head -2
  git checkout -q -- .
done
