#!/bin/bash
# check.sh PROPERTY TIER [args...]: builds and runs the check of one property against /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift 2
seed=${VERIF_SEED:-1}
bin=$(echo "$prop" | tr 'A-Z' 'a-z')
mkdir -p build evidence
if ! make -j"$(nproc)" -s "build/bin/$bin" > "build/$bin.log" 2>&1; then
  tail -50 "build/$bin.log"
  echo "ERROR: the check of $prop does not build"
  exit 3
fi
export ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:handle_abort=0:quarantine_size_mb=16:malloc_context_size=8"
export UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99"
export TSAN_OPTIONS="exitcode=99:halt_on_error=1:report_signal_unsafe=0:report_thread_leaks=0"
exec "build/bin/$bin" --tier "$tier" --seed "$seed" --dir . "$@"
