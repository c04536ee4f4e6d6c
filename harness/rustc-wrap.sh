#!/bin/bash
# RUSTC_WRAPPER: compiles the three crates of /repo exactly as cargo asks, additionally emitting the
# compiler's MIR (unoptimised, overflow checks on) and enabling the guarded verification hooks.
rustc="$1"; shift
name=""; prev=""; lib=0
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  if [ "$prev" = "--crate-type" ] && [ "$a" = "lib" ]; then lib=1; fi
  prev="$a"
done
case "$name:$lib" in
  ink_analyzer_ir:1|ink_analyzer:1|ink_lsp_server:1)
    exec "$rustc" "$@" --emit=mir --cfg ink_verif -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no -Coverflow-checks=on -Cdebug-assertions=off ;;
  *) exec "$rustc" "$@" ;;
esac
