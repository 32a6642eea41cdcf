#!/bin/bash
# mkkit.sh <absolute seed dir>: packs a frozen copy of the simulator beside a demonstration.
cd "$(dirname "$0")/../harness" || exit 2
tar czf "$1/kit.tgz" --exclude=target --exclude=mirror --transform 's,^\./,harness/,' ./Cargo.toml ./Cargo.lock ./sync.sh ./mango-v4 ./margin-trade ./shims ./sim ./client
cat > "$1/demo.sh" <<'D'
#!/bin/bash
# cwd: the repository. Builds its programs into the simulator (in a scratch directory), runs the scenario, judges it.
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR=$W/target
F=; [ -f "$D/margin.ndjson" ] && F=u_margin; grep -q '"op": *"client"' "$D/scenario.ndjson" 2>/dev/null && F=u_lists
tar xzf "$D/kit.tgz" -C "$W" && cd "$W/harness" || exit 3
sed -i 's/^members = .*/members = ["mango-v4", "margin-trade", "sim", "client"]/' Cargo.toml
REPO=$R ./sync.sh && cargo build --offline -p sim --no-default-features --features "$F" > "$W/log" 2>&1 || { tail -30 "$W/log"; exit 3; }
if [ -f "$D/scenario.ndjson" ]; then "$W/target/debug/sim" script "$D/scenario.ndjson" "$W/out" || exit 3; fi
if [ -f "$D/margin.ndjson" ]; then "$W/target/debug/sim" unit margin "$D/margin.ndjson" 0 "$W/out.trace.ndjson" || exit 3; fi
python3 "$D/judge.py" "$W/out"
D
chmod +x "$1/demo.sh"
