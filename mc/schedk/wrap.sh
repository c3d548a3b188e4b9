#!/bin/bash
# rustc wrapper: instrument the crate under test and the crate that
# instantiates it; with MC_RACE also std and the dependencies, whose calls of
# the runtime get names of their own
rustc=$1; shift
cn=; out=; extra=; target=
for a in "$@"; do
  case "$prev" in --crate-name) cn=$a;; --out-dir) out=$a;; --target) target=$a;; esac
  case "$a" in extra-filename=*) extra=${a#extra-filename=};; -Cextra-filename=*) extra=${a#-Cextra-filename=};; esac
  prev=$a
done
abi="-Cunsafe-allow-abi-mismatch=sanitizer"
inst="-Zsanitizer=thread -Zexternal-clangrt $abi -Cllvm-args=-tsan-instrument-func-entry-exit=0"
case "$cn" in
  schedk|fnntw) exec "$rustc" "$@" $inst ;;
  enumk) exec "$rustc" "$@" $abi ;;
esac
if [ -z "$MC_RACE" ] || [ -z "$target" ]; then exec "$rustc" "$@"; fi
case "$cn" in
  compiler_builtins|panic_abort|build_script_build|___*) exec "$rustc" "$@" $abi ;;
esac
"$rustc" "$@" $inst -Zshare-generics=no || exit
lib=$out/lib$cn$extra.rlib
if [ -f "$lib" ]; then
  syms=$(mktemp)
  nm "$lib" 2>/dev/null | awk '$1 == "U" && $2 ~ /^__tsan_/ {print $2}' | sort -u | sed 's/^__tsan_\(.*\)/__tsan_\1 __tsanx_\1/' > "$syms"
  if [ -s "$syms" ]; then objcopy --redefine-syms="$syms" "$lib" || { rm -f "$syms"; exit 1; }; fi
  rm -f "$syms"
fi
exit 0
