#!/bin/bash
# seedtest.sh ID...: builds each planted bug in a scratch copy, runs the repository's tests, the demo and the property's check
root=$(cd "$(dirname "$0")/.." && pwd)
sr=/tmp/seedrepo
[ -d "$sr" ] || cp -a /repo "$sr"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$sr/target CARGO_PROFILE_DEV_DEBUG=line-tables-only
git -C "$sr" fetch -q /repo HEAD && git -C "$sr" checkout -qf FETCH_HEAD
demo() { (cd "$sr" && bash "$root/seeded/$1/demo.sh" > /tmp/demo.log 2>&1; echo $?); }
if [ -z "$NOBASE" ]; then
  (cd "$sr" && cargo build -q --offline 2>/dev/null)
  for i in "$@"; do [ "$(demo $i)" = 0 ] || { echo "$i: demo fails on the unchanged tree"; cat /tmp/demo.log; }; done
fi
for i in "$@"; do
  git -C "$sr" checkout -qf FETCH_HEAD
  git -C "$sr" apply "$root/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$root/seeded/$i/meta.json'))['property'])")
  (cd "$sr" && cargo build -q --offline > /tmp/sb.log 2>&1) || { echo "$i: does not build"; tail -20 /tmp/sb.log; continue; }
  d=$(demo $i)
  t=skip
  [ -n "$NOTEST" ] || { (cd "$sr" && cargo test -q --offline --all-targets > /tmp/stest.log 2>&1) && t=pass || t=FAIL; }
  c=$(cd "$root" && VERIF_REPO=$sr timeout 900 python3 check.py $p > /tmp/sc.log 2>&1; echo $?)
  echo "$i $p demo=$d tests=$t check=$c $(grep -m1 VIOLATION /tmp/sc.log | cut -c1-100)"
  [ "$c" = 1 ] || tail -3 /tmp/sc.log
  # tools/seed_results.txt: id, property, exit of the demo, exit of the check
  touch "$root/tools/seed_results.txt"
  { grep -v "^$i " "$root/tools/seed_results.txt"; echo "$i $p $d $c"; } | sort > /tmp/seed_results.new && cp /tmp/seed_results.new "$root/tools/seed_results.txt"
done
git -C "$sr" checkout -qf FETCH_HEAD
