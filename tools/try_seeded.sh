#!/bin/bash
# Confirms planted changes in a scratch copy of /repo: they apply, build, pass the tests, and their
# demonstration fails with them and passes without. Usage: try_seeded.sh [ID...]
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
W=$(mktemp -d); trap 'rm -rf "${W:?}"' EXIT
cp -a /repo "$W/repo"
cp -a /verif/seeded "$W/elsewhere"
cd "$W/repo" || exit 2
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls /verif/seeded))
for id in "${ids[@]}"; do
  d=$W/elsewhere/$id
  git checkout -q -- . ; r=ok
  bash "$d/demo.sh" > "$W/log0" 2>&1; [ $? = 0 ] || { r="demo fails on the unchanged tree"; cat "$W/log0" | tail -5; }
  if git apply "$d/patch.diff"; then
    cargo test --workspace --no-fail-fast --offline > "$W/log" 2>&1 || { r="tests"; tail -20 "$W/log"; }
    n=$(grep -E '^test .* ok$' "$W/log" | wc -l); [ "$n" = 20 ] || r="$r, $n tests"
    bash "$d/demo.sh" > "$W/log1" 2>&1; c=$?
    case $c in 0) r="$r, demo passes with the change";; 2) r="$r, demo does not build"; tail "$W/log1";; esac
  else r="does not apply"; fi
  echo "$id: $r ($c)"
done
