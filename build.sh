# Sourced by check.sh and setup.sh: functions that build the parts. All output stays
# under /verif/target (ignored by git); /repo is only read.
T="$here/target"
INPROC_BIN="$T/h/debug/inproc"; SAVE_BIN="$T/h/debug/save"; CLONE_BIN="$T/h/debug/clone"; CLI_BIN="$T/c/debug/cli"
export PODO_BIN="$T/podo/debug/podo" PODO_SHIM="$T/shim/shim.so"
mkdir -p "$T/shim"
quietly() { # run a build step; on failure show its output and give no verdict
  local log; log="$(mktemp "$T/log.XXXXXX")"
  if ! "$@" >"$log" 2>&1; then
    tail -60 "$log" >&2; rm -f "$log"; echo "check error: build failed: $*" >&2; exit 2
  fi
  rm -f "$log"
}
# cargo goes by modification times; go by contents as well.
fresh() { # <target dir> <manifest>
  local now; now="$(cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ -d "$1" ] && [ "$(cat "$1/podo.stamp" 2>/dev/null)" != "$now" ]; then
    cargo clean --offline --manifest-path "$2" --target-dir "$1" -p podo >/dev/null 2>&1
  fi
  mkdir -p "$1"
  [ -f "$1/CACHEDIR.TAG" ] || echo "Signature: 8a477f597d28d172789f06886806bc55" > "$1/CACHEDIR.TAG"
  echo "$now" > "$1/podo.stamp"
}
hooked() { RUSTFLAGS="--cfg podo_verif" cargo build --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$T/h" --features inproc --bin "$1"; }
# The checks that also call podo's modules in process. Where those can no longer be called as they were (podo itself
# builds, but not with the harness), what the program shows decides alone.
build_hooked() { # <bin>: succeeds if podo's modules can be called
  local log; log="$(mktemp "$T/log.XXXXXX")"
  fresh "$T/h" "$here/harness/Cargo.toml"
  if hooked "$1" >"$log" 2>&1; then rm -f "$log"; return 0; fi
  grep -m3 '^error' "$log" >&2; rm -f "$log"
  echo "note: podo's modules cannot be called in process; the program alone is checked" >&2
  build_cli; return 1
}
build_cli() { quietly cargo build --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$T/c" --bin cli; }
build_podo() { fresh "$T/podo" /repo/Cargo.toml; CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 quietly cargo build --offline --manifest-path /repo/Cargo.toml --target-dir "$T/podo" --bin podo; }
build_shim() {
  [ -f "$here/harness/shim/shim.c" ] || return 0
  [ "$PODO_SHIM" -nt "$here/harness/shim/shim.c" ] || quietly gcc -O1 -shared -fPIC -o "$PODO_SHIM" "$here/harness/shim/shim.c" -ldl
}
