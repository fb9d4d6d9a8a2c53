#!/bin/bash
# rustc wrapper: the crate under check, and only that, gets a callback at every basic block, load and store.
case " $* " in
*" --crate-name dbus_message_parser "*)
    exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc \
        -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores
    ;;
esac
exec "$@"
