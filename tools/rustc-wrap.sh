#!/bin/bash
# Compiles the crates that compute a lot at type level with the compiler's parallel front end.
case " $* " in
  *" --crate-name build_script_"*|*" --crate-name stabby_macros "*) exec "$@" ;;
  *" --crate-name stabby"*|*" --crate-name vharness "*|*" src/bin/"*) RUSTC_BOOTSTRAP=1 exec "$@" -Zthreads=8 ;;
esac
exec "$@"
