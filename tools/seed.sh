#!/bin/bash
# seed.sh <id> <property> <needs> <breaks>   (the change is the uncommitted diff of /tmp/seed/repo, the demonstration /tmp/seed/main.rs)
set -e
d=/verif/seeded/$1
mkdir -p "$d"
git -C /tmp/seed/repo diff > "$d/patch.diff"
cp /verif/tools/demo.sh "$d/demo.sh"; cp /verif/tools/bc.rs "$d/bc.rs"; cp /tmp/seed/main.rs "$d/main.rs"; if [ -n "$CFG" ]; then echo "$CFG" > "$d/cfg"; fi
python3 - "$@" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(f"/verif/seeded/{sys.argv[1]}/meta.json", "w"), indent=1)
P
cd /tmp/seed/repo
. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seed/target
cargo check --all-features --offline -q 2>&1 | tail -3
cargo test --workspace --no-fail-fast --offline --features integration -q 2>&1 | grep -E 'test result|FAILED|failed' | head -5
bash "$d/demo.sh" >/tmp/seed/o.patched 2>&1 && echo "NOT CAUGHT BY DEMO" || { echo "demo fails with patch:"; tail -3 /tmp/seed/o.patched; }
git stash -q
bash "$d/demo.sh" >/tmp/seed/o.clean 2>&1 && echo "demo ok on clean" || { echo "DEMO FAILS ON CLEAN"; tail -5 /tmp/seed/o.clean; }
git stash pop -q; git checkout -q -- .
