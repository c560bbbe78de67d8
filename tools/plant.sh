#!/bin/bash
# plant.sh ID: with the edit applied in /tmp/seed/repo, confirm it (builds, stable tests pass, demo passes on
# /repo and fails with it) and keep it as /verif/seeded/ID.  main.rs and meta.json must already lie there.
set -e
d=/verif/seeded/$1
[ -f $d/main.rs ] && [ -f $d/meta.json ]
cat > $d/demo.sh <<'D'
#!/bin/bash
# run with cwd /repo: exit 0 when the property holds there
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
t=$(mktemp -d /tmp/demo-XXXXXX); mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\nfaerie = { path = "%s" }\ngoblin = "0.6"\ntarget-lexicon = "0.12"\n[workspace]\n' "$repo" > "$t/Cargo.toml"
cargo build --offline --quiet --manifest-path "$t/Cargo.toml" --target-dir "$t/target" >"$t/log" 2>&1 || { tail -20 "$t/log"; rm -rf "$t"; exit 3; }
"$t/target/debug/demo"; rc=$?
rm -rf "$t"
exit $rc
D
chmod +x $d/demo.sh
cd /tmp/seed/repo
git diff > $d/patch.diff
[ -s $d/patch.diff ]
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed/test.log 2>&1 || true
grep -E "^test .* \.\.\. " /tmp/seed/test.log | grep -v "\.\.\. ok" && { echo "TESTS FAIL"; }
grep -cE "^test .* ok" /tmp/seed/test.log
cd /repo && bash $d/demo.sh; echo "clean rc=$?"
cd /tmp/seed/repo && set +e; RUST_BACKTRACE=0 bash $d/demo.sh 2>&1 | head -5; (exit ${PIPESTATUS[0]}); echo "patched rc=$?"
git -C /tmp/seed/repo checkout -- .
