#!/bin/bash
# Links a 32-bit program against the 32-bit C library's run-time files (no development files are installed).
here=$(cd "$(dirname "$0")" && pwd)
args=()
for a in "$@"; do
  case $a in
    -lc|-lgcc_s|-lgcc|-lpthread|-lrt|-ldl|-lutil|-lm|-lgcc_eh) ;;
    -pie|-static-pie) ;;
    *) args+=("$a");;
  esac
done
exec clang -m32 -nostdlib -no-pie -fuse-ld=lld "$here/start.c" "${args[@]}" -L/usr/lib32 -l:libc.so.6 -l:libgcc_s.so.1 -l:libm.so.6 \
  -Wl,--dynamic-linker=/usr/lib32/ld-linux.so.2,--eh-frame-hdr
