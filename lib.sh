# Build helpers, sourced by check.sh.

# Cargo decides by modification times whether a path dependency changed; a tree restored
# from elsewhere may carry old times, so decide by content instead.
fresh_repo() {
  local h
  h="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -path '*/target' -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$(cat "$CARGO_TARGET_DIR/repo.hash.$1" 2>/dev/null)" != "$h" ]; then
    rm -f "$CARGO_TARGET_DIR/repo.hash.$1"
    (cd "$V/$1" && cargo clean --offline -q ${2:-} -p cw-ica-controller >/dev/null 2>&1
     cargo clean --offline -q ${2:-} -p callback-counter >/dev/null 2>&1
     cargo clean --offline -q ${2:-} -p cw-ica-owner >/dev/null 2>&1
     cargo clean --offline -q ${2:-} -p cw-ica-controller-derive >/dev/null 2>&1)
  fi
  REPO_HASH="$h"
}

stamp() { echo "$REPO_HASH" > "$CARGO_TARGET_DIR/repo.hash.$1"; }

build_monitor() {
  fresh_repo harness
  if ! (cd "$V/harness" && cargo build --offline --locked ${MON_CONFIG:-}) > "$LOG/harness.log" 2>&1; then
    echo "the monitor does not build against /repo:" >&2
    grep -E -A6 '^error' "$LOG/harness.log" | head -60 >&2
    return 1
  fi
  stamp harness
}
