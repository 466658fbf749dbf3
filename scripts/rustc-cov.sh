#!/bin/bash
# Compiler wrapper: counters on the edges of the code under test, which guide the search of the monitors.
for a in "$@"; do
    if [ "${prev:-}" = --crate-name ]; then
        case $a in
        mvdparser) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;;
        mvdverif) exec "$@" --cfg edges ;;
        esac
        break
    fi
    prev=$a
done
exec "$@"
