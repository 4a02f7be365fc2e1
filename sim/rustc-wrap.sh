#!/bin/sh
# RUSTC_WRAPPER: adds SanitizerCoverage edge callbacks to the crates under test so that
# the simulator gets a scheduling point at every control-flow edge of their code.
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name=$a
  prev=$a
done
case "$name" in
  ruby_fast_lsp|ruby_analysis|rfl_inst)
    # share-generics=n: generic code instantiated here (and therefore instrumented) must not
    # be linked into the simulator itself
    RUSTC_BOOTSTRAP=1 exec "$@" -Zshare-generics=n -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$@"
