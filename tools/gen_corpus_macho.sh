#!/bin/bash
# Development-time only: more Mach-O files for sim/data/corpus.
set -u
export PATH=$PATH:/usr/lib/llvm-18/bin
OUT=${1:-/verif/sim/data/corpus}
W=$(mktemp -d); trap 'rm -rf -- "$W"' EXIT
cd "$W" || exit 1
cat > p.s <<'S'
.section __TEXT,__text
.globl _a, _b
_a: .quad 1
L1: .quad 2
_b: .quad 3
.section __DATA,__data
_d: .quad _a - _b
 .quad _a - _d + 5
 .long 0
_e: .quad _ext + 16
.section __DATA,__more
_f: .quad _e
.zerofill __DATA,__bss,_z,64,4
.comm _com,24,3
S
clang -target x86_64-apple-macos11 -c p.s -o px.o && cp px.o $OUT/macho-pairs-x86_64.o
{ cat p.s; cat <<'S'
.section __TEXT,__text
.p2align 2
_fn:
 adrp x0, _ext@PAGE+0x123456
 add x0, x0, _ext@PAGEOFF+2
 adrp x1, _a@PAGE+1
 ldr x1, [x1, _a@PAGEOFF+3]
 bl _d+4
 adrp x2, _ext@GOTPAGE
 ldr x2, [x2, _ext@GOTPAGEOFF]
S
} > q.s
clang -target arm64-apple-macos11 -c q.s -o pa.o && cp pa.o $OUT/macho-pairs-arm64.o
cat > i.c <<'C'
extern int x(int); int y = 4; static int z; int *p = &y; int f(int a) { z++; return x(a) + y; } int g(void) { return f(2) + z; }
C
clang -O1 -fno-pic -mkernel -fno-asynchronous-unwind-tables -target i386-apple-macos10.12 -c i.c -o pi.o && cp pi.o $OUT/macho-plain-i386.o
clang -O1 -fPIC -fasynchronous-unwind-tables -target x86_64-apple-macos11 -c i.c -o pu.o && cp pu.o $OUT/macho-unwind-x86_64.o
clang -O1 -fPIC -fasynchronous-unwind-tables -target arm64-apple-macos11 -c i.c -o pu.o && cp pu.o $OUT/macho-unwind-arm64.o
cat > libSystem.tbd <<'T'
--- !tapi-tbd
tbd-version: 4
targets: [ x86_64-macos, arm64-macos ]
install-name: '/usr/lib/libSystem.B.dylib'
exports:
  - targets: [ x86_64-macos, arm64-macos ]
    symbols: [ dyld_stub_binder, __tlv_bootstrap ]
...
T
cat > l1.c <<'C'
int x(int a) { return a; }
C
cat > l2.c <<'C'
int other(int a) { return a * 2; } __thread int tv = 3; int shared[4];
C
cat > m.c <<'C'
extern int x(int), other(int), shared[]; extern __thread int tv; int y = 4; static int z; int *p = &y, *q = shared + 1; __attribute__((weak)) int w = 2; static __thread int mine = 7;
static int local_fn(int a) { return a + z; } int (*fp)(int) = local_fn; int (*fx)(int) = x;
int f(int a) { z++; mine++; return x(a) + other(y) + tv + w + fp(a) + local_fn(3) + mine; }
C
for a in x86_64 arm64; do
  T=$a-apple-macos12
  clang -O1 -target $T -g -c m.c -o m.o; clang -O1 -target $T -c l1.c -o l1.o; clang -O1 -target $T -c l2.c -o l2.o
  L="ld64.lld -arch $a -platform_version macos 12 12 -dylib"
  $L -install_name /l/lib1.dylib -current_version 3.2.1 l1.o libSystem.tbd -o lib1.dylib || continue
  $L -install_name /l/lib2.dylib l2.o libSystem.tbd -o lib2.dylib || continue
  $L -no_fixup_chains -install_name /x/m.dylib m.o lib1.dylib lib2.dylib libSystem.tbd -o o && cp o $OUT/macho-libs-$a.dylib
  $L -fixup_chains -adhoc_codesign -install_name /x/m.dylib m.o lib1.dylib lib2.dylib libSystem.tbd -o o && cp o $OUT/macho-libsch-$a.dylib
done
