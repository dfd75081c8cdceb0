#!/bin/sh
# Compiler wrapper: instruments only the code under test and the libraries it is
# built from with control-flow edge callbacks (see src/seams.rs); everything
# else, the simulator included, is compiled as usual.
rustc="$1"; shift
case " $* " in
  *" --crate-name aseprite_loader "*|*" --crate-name nom "*|*" --crate-name flate2 "*|*" --crate-name miniz_oxide "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
