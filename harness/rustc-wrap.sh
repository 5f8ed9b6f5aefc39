#!/bin/bash
# RUSTC_WRAPPER: compile only the crate under test with SanitizerCoverage.
rustc=$1; shift
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "dbus_message_parser" ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares \
      -Ccodegen-units=1
  fi
  prev=$a
done
exec "$rustc" "$@"
