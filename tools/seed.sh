#!/bin/bash
# seed.sh ID: takes the change made in /tmp/seedrepo (a copy of /repo) as planted bug ID, whose main.rs and meta.json
# are already in seeded/ID, and confirms it: the stable tests pass and demo.sh tells the two trees apart.
id=${1:?}; d=/verif/seeded/$id; cd /tmp/seedrepo || exit 2
git diff > "$d/patch.diff"; [ -s "$d/patch.diff" ] || { echo "no change"; exit 2; }
cat > "$d/demo.sh" <<'EOD'
#!/bin/bash
# Run in the repository's root: exit 0 when the property holds in this case.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" && { cp "$here"/*.jpg "$here"/*.exr "$here"/*.bin "$t/src/" 2>/dev/null; true; } || exit 2
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nimage = { path = "%s", default-features = false, features = ["rayon", "png", "bmp", "tga", "tiff", "pnm", "qoi", "ff", "ico", "webp", "hdr", "gif", "jpeg", "dds", "exr"] }\nrayon = "1"\n[profile.dev]\ndebug = 0\nopt-level = 1\n' "$repo" > "$t/Cargo.toml"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=$t/target
unset RUSTFLAGS CARGO_INCREMENTAL
cargo build --offline --manifest-path "$t/Cargo.toml" > "$t/log" 2>&1 || { tail -20 "$t/log"; exit 2; }
cd "$t" && timeout 120 "$t/target/debug/demo"
EOD
sed -e 's#/repo/target#/tmp/seedrepo/target#; s#cd /repo#cd /tmp/seedrepo#' /opt/vp/env.sh > /tmp/seedenv.sh
( . /tmp/seedenv.sh
  cargo test --workspace --no-fail-fast --offline --lib --bins --tests --features "$FEATURES" -- --test-threads 8 > /tmp/seed.log 2>&1
  cargo test --workspace --no-fail-fast --offline --doc --features "$FEATURES" -- --test-threads 8 >> /tmp/seed.log 2>&1
  python3 /opt/vp/results.py /tmp/seed.json "cargo:/tmp/seed.log" >/dev/null
  python3 -c "
import json;s=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/seed.json'));b=[x for x in s if x not in o['passed']]
print('stable broken:',len(b),b[:5]) if b else print('stable pass')" )
bash "$d/demo.sh" 2>&1 | grep -v '^ ' | head -8; echo "demo with patch: ${PIPESTATUS[0]} (want nonzero)"
git checkout -q -- . ; bash "$d/demo.sh"; echo "demo without: $? (want 0)"
