# C04: the same workload under AddressSanitizer, ThreadSanitizer and Miri.
# $scratch $seed $tier $REPO are set by run.sh
replays=/verif/replays
t0=$(date +%s.%N)
overall=0
note() { [ "$1" = 0 ] || { [ $overall = 1 ] || overall=$1; }; }

for f in asan tsan; do
    build $f "$scratch" || exit 2
    mkdir -p "$scratch/$f"
    MVD_FLAVOUR=$f \
        ASAN_OPTIONS=halt_on_error=1:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000 \
        TSAN_OPTIONS=halt_on_error=1:exitcode=66 \
        "$bin" check C04 "$seed" "$tier" "$scratch/$f" "$REPO" "$scratch/$f.json" $replays
    note $?
done

# Miri: interpreter processes on small inputs
n=8
if [ "$tier" = thorough ]; then cases=4000; limit=380; else cases=400; limit=40; fi
build stable "$scratch" || exit 2
mkdir -p "$scratch/miri/in"
"$bin" emit "$seed" $cases "$scratch/miri/in" "$REPO" || exit 2
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=$seed"
miri() { CARGO_TARGET_DIR=/verif/target/miri cargo +nightly miri run --offline --quiet -- "$@"; }
fresh
miri list >"$scratch/miri/list" 2>"$scratch/miri/build.log" || { cat "$scratch/miri/build.log"; exit 2; }
pids=()
for w in $(seq 0 $((n - 1))); do
    ( miri interpret "$scratch/miri/in" "$w" $n $limit "$scratch/miri/w$w" >/dev/null 2>"$scratch/miri/w$w.stderr"
      echo $? >"$scratch/miri/w$w.rc" ) &
    pids+=($!)
done
wait "${pids[@]}"
for w in $(seq 0 $((n - 1))); do
    o=$scratch/miri/w$w
    rc=$(cat "$o.rc")
    if grep -qE "Undefined Behavior|Data race detected|memory leaked" "$o.stderr" || [ -f "$o.viol0.txt" ]; then
        mkdir -p $replays/C04
        r=$replays/C04/miri-seed$seed-worker$w.txt
        { cat "$o.stderr"; cat "$o.viol0.txt" 2>/dev/null
          echo "input: ${r%.txt}.bin"; } >"$r"
        cp "$scratch/miri/in/$(cat "$o.slot").in" "${r%.txt}.bin"
        grep -E "error:|Undefined" "$o.stderr" | head -5
        echo "VIOLATION property=C04 replay=$r"
        note 1
    elif [ "$rc" != 0 ]; then
        tail -5 "$o.stderr"
        echo "INCONCLUSIVE: Miri worker $w ended with $rc"
        note 2
    fi
done
python3 /verif/scripts/c04_evidence.py "$scratch" "$tier" "$seed" "$t0" "$overall" /verif/evidence/C04.json || exit 2
return $overall
