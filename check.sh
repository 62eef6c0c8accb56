#!/bin/bash
# check.sh ID quick|thorough [mon options]: builds the monitors against /repo's working tree and runs those of one property.
# exit 0: held on everything observed; 1: violation (VIOLATION line); 2: no answer (build failure, nothing observed).
cd "$(dirname "$0")" || exit 2
V=$PWD; ID=$1; TIER=${2:-quick}; shift 2
export CARGO_NET_OFFLINE=true RUSTFLAGS="-A warnings"
mkdir -p evidence out
SEED=${VERIF_SEED:-1}
T=(--tier "$TIER" --seed "$SEED" --verif "$V")
W=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$W"' EXIT
X86=x86_64-unknown-linux-gnu
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-disable-alignment-check"
export ASAN_OPTIONS=detect_leaks=0:exitcode=97 TSAN_OPTIONS=exitcode=98:halt_on_error=1

# Builds. Each into a directory of its own, so that they can run side by side.
b_stable() { (cd harness && cargo +stable build --offline --target-dir target); }
b_plain() { (cd harness && cargo +stable build --offline --no-default-features --target-dir target-plain); }
b_asan() { (cd harness && RUSTFLAGS="-Zsanitizer=address -A warnings" cargo +nightly build --offline --target $X86 --target-dir target-asan); }
b_tsan() { (cd harness && RUSTFLAGS="-Zsanitizer=thread -A warnings" cargo +nightly build -Zbuild-std --offline --target $X86 --target-dir target-tsan); }
b_miri() { (cd harness && cargo +nightly miri run --offline --target-dir target-miri -- C29 --part none); }
build() { # names: all must build
  local n p=() bad=0
  for n in "$@"; do "b_$n" >"$W/build-$n.log" 2>&1 & p+=($!); done
  for n in "$@"; do
    wait "${p[0]}" || { tail -40 "$W/build-$n.log"; echo "check.sh: the harness does not build against /repo ($n)"; bad=1; }
    p=("${p[@]:1}")
  done
  [ $bad = 0 ] || exit 2
}
# Runs: name, log, evidence and exit code in $W/run-<name>.*
run() { # name, seconds, command ...
  local n=$1 s=$2; shift 2
  echo "$*" >"$W/run-$n.cmd"
  timeout "$s" "$@" >"$W/run-$n.log" 2>&1; echo $? >"$W/run-$n.rc"
}
ASAN=(harness/target-asan/$X86/debug/mon); TSAN=(harness/target-tsan/$X86/debug/mon)
miri() { # part, section seconds, seconds
  (cd harness && run "miri-$1" "$3" cargo +nightly miri run --offline --target-dir target-miri -- C29 --part "$1" --threads 1 --section-secs "$2" --evidence "$W/ev-miri-$1.json" "${T[@]}"); }
violation() { # name: the log of a run becomes the replay file
  local f=$V/out/$ID-$1.txt
  { echo "property $ID: $2 (exit $(cat "$W/run-$1.rc")) in: $(cat "$W/run-$1.cmd")"; cat "$W/run-$1.log"; } | cut -c1-2000 > "$f"
  grep -v '^merging ' "$W/run-$1.log" | cut -c1-1000 | tail -60; echo "VIOLATION property=$ID replay=$f"; exit 1
}
# Judges a run by the reports of the instrumentation and by signals: for every property, a process that dies is a violation.
judge() { # name
  local n=$1 rc; rc=$(cat "$W/run-$n.rc")
  grep -q -e 'ERROR: AddressSanitizer' -e 'WARNING: ThreadSanitizer' "$W/run-$n.log" && violation "$n" "sanitizer report"
  grep -q -e 'error: Undefined Behavior' "$W/run-$n.log" && violation "$n" "undefined behaviour"
  case $rc in 97|98|132|134|135|136|139) violation "$n" "the process running the library died";; esac
}

if [ "$ID" = C29 ]; then
  build asan tsan miri
  if [ "$TIER" = quick ]; then O=3 A=0.4 S=1.5 M=25 ML=120; else O=1.5 A=1.5 S=6 M=60 ML=200; fi
  # Miri: one process per core, each with parts of its own
  PARTS=(strings requests stores C13 C14 C31 C15 C25)
  [ "$TIER" = quick ] || PARTS+=(C21,C22,C23 C26,C28 C06,C01,C04 C10,C08 C11,C12 C18 C19 C20 C33,C34 C35,C36)
  p=()
  for m in "${PARTS[@]}"; do c=${m//[^,]}; miri "$m" $((M / (${#c} + 1))) $ML & p+=($!); [ ${#p[@]} -ge 8 ] && { wait "${p[0]}"; p=("${p[@]:1}"); }; done
  wait "${p[@]}"
  run asan-own 300 "${ASAN[@]}" C29 --part own --scale $O --evidence "$W/ev-asan-own.json" "${T[@]}"
  run asan-all 600 "${ASAN[@]}" C29 --part all --scale $A --evidence "$W/ev-asan-all.json" "${T[@]}"
  run tsan 600 "${TSAN[@]}" C29 --part tcp --scale $S --evidence "$W/ev-tsan.json" "${T[@]}"
  rc=0
  for f in "$W"/run-*.rc; do
    n=${f##*/run-}; n=${n%.rc}; judge "$n"
    r=$(cat "$f"); echo "-- $n: exit $r"; grep '^C29 ' "$W/run-$n.log"
    [ "$r" = 1 ] && grep -q '^VIOLATION property=C29' "$W/run-$n.log" && violation "$n" "violation"
    # what Miri does not get done, or cannot do, decides nothing; the sanitizers' runs have to come back
    case $n in
      miri-*) [ "$r" = 0 ] || { echo "   (no result)"; grep -m1 '^error' "$W/run-$n.log"; /bin/rm -f "$W/ev-$n.json"; };;
      *) [ "$r" = 0 ] || { tail -30 "$W/run-$n.log"; rc=2; };;
    esac
  done
  python3 tools/merge_evidence.py "evidence/$ID.json" "$W"/ev-*.json || rc=2
  exit $rc
fi

E=(--evidence "$V/evidence/$ID.json"); one=0
for a in "$@"; do [ "$a" = --case ] && { E=(); one=1; }; done
B=(stable)
[ "$ID" = C27 ] && [ $one = 0 ] && B+=(tsan)
case $ID in C11|C12) B+=(plain);; esac
build "${B[@]}"
run mon 850 harness/target/debug/mon "$ID" "${T[@]}" "${E[@]}" "$@"; rc=$(cat "$W/run-mon.rc")
judge mon
grep -v '^merging ' "$W/run-mon.log" | cut -c1-4000 | tail -120
if [ "$ID" = C27 ] && [ $one = 0 ] && [ "$rc" = 0 ]; then
  # the same storms with every memory access watched for races
  run tsan 400 "${TSAN[@]}" "$ID" "${T[@]}" --scale "$([ "$TIER" = quick ] && echo 3 || echo 1)" --evidence "$W/ev-tsan.json" "$@"
  judge tsan; rc=$(cat "$W/run-tsan.rc"); echo "-- with ThreadSanitizer: exit $rc"; grep -v '^merging ' "$W/run-tsan.log" | cut -c1-4000 | tail -30
  [ "$rc" = 0 ] && { python3 tools/merge_evidence.py "evidence/$ID.json" "evidence/$ID.json" "$W/ev-tsan.json" || rc=2; }
fi
if [[ " ${B[*]} " = *" plain "* ]] && [ "$rc" = 0 ]; then
  # the library without its multipart feature
  run plain 400 harness/target-plain/debug/mon "$ID" "${T[@]}" --scale 2 --evidence "$W/ev-plain.json" "$@"
  judge plain; rc=$(cat "$W/run-plain.rc"); echo "-- without the multipart feature: exit $rc"; grep -v '^merging ' "$W/run-plain.log" | cut -c1-4000 | tail -30
  [ "$rc" = 0 ] && [ $one = 0 ] && { python3 tools/merge_evidence.py "evidence/$ID.json" "evidence/$ID.json" "$W/ev-plain.json" || rc=2; }
fi
[ "$rc" -gt 2 ] && rc=2
exit "$rc"
