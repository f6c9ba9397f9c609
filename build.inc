# Sourced by check.sh and c19.sh. Cargo decides by time stamps; a content hash makes sure that a changed /repo is always rebuilt.
build() { # build <name> <function>: the function is called with "clean" and "build"
  local stamp="$TD/stamp-$1" log="$TD/build-$1.log" h
  shift
  exec 9>"$TD/.lock"; flock 9
  h=$(cd /repo && find src protos Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
    rm -f "$stamp"
    "$@" clean >/dev/null 2>&1
  fi
  if ! "$@" build >"$log" 2>&1 9>&-; then
    grep -E '^error' -A12 "$log" | head -60 >&2
    echo "the harness does not build against /repo ($log)" >&2
    flock -u 9
    return 2
  fi
  echo "$h" >"$stamp"
  flock -u 9
}
