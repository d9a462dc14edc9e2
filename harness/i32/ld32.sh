#!/bin/bash
# Links a 32-bit x86 executable with what a 64-bit system has: the 32-bit C library but no startup
# files or development links for it.
here=$(cd "$(dirname "$0")" && pwd)
out=${VH_I32_TMP:?}
[ -f "$out/crt.o" ] || { as --32 "$here/crt.S" -o "$out/crt.$$.o" && mv "$out/crt.$$.o" "$out/crt.o"; }
args=()
for a in "$@"; do
  case "$a" in
    -lgcc_s|-lgcc|-lc|-lutil|-lrt|-lpthread|-lm|-ldl|-lgcc_eh|-pie|-no-pie|-static-pie|--as-needed|-Bdynamic|-Bstatic) ;;
    *) args+=("$a");;
  esac
done
exec ld -m elf_i386 -dynamic-linker /lib/ld-linux.so.2 "$out/crt.o" "${args[@]}" \
  /usr/lib32/libc.so.6 /usr/lib32/libgcc_s.so.1 /usr/lib32/libm.so.6 /usr/lib32/ld-linux.so.2
