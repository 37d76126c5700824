#!/bin/bash
# Development-time only: more ELF files, made by gcc, as and ld (see gen_corpus.sh).
set -u
OUT=${1:-/verif/sim/data/corpus}
W=$(mktemp -d); trap 'rm -rf -- "$W"' EXIT
cd "$W" || exit 1
cat > a.c <<'C'
static int counter = 3; int shared = 7; int zeroed; static char buf[40];
const char *const greeting = "hello, world"; __attribute__((weak)) int maybe(int x);
extern int imported(int, const char *); extern int imported_data;
static __attribute__((noinline)) int helper(int a) { buf[a & 31]++; return a + shared + counter++; }
int (*table[])(int) = { helper, maybe };
int entry(int a) { return imported(helper(a), greeting) + imported_data + (maybe ? maybe(a) : 0) + zeroed; }
__attribute__((weak)) int weak_def(void) { return 1; }
__thread int t1 = 5; __thread int t2; int get(void) { return t1 + t2++; }
int v1f(void) { return 1; } int v2f(void) { return 2; }
__asm__(".symver v1f,f@VA_1"); __asm__(".symver v2f,f@@VA_2");
C
echo 'int imported_data = 4; int imported(int a, const char *s) { return a + s[0]; } int maybe(int x) { return x; }' > lib.c
echo 'VA_1 { global: entry; shared; f; }; VA_2 { global: t1; get; weak_def; f; local: *; } VA_1;' > ver
echo 'L_1 { global: imported; }; L_2 { global: imported_data; maybe; } L_1;' > ver2
C="gcc -O1 -fno-ident -fno-stack-protector -ffreestanding -fPIC -nostdlib -ffile-prefix-map=$W=/w"
$C -c a.c -o "$OUT/elf-gnu-x86_64.o"
$C -g -ffunction-sections -fdata-sections -c a.c -o "$OUT/elf-gnu-g-x86_64.o"
$C -shared -Wl,--version-script=ver2,-soname,libl.so.1 lib.c -o libl.so
$C -shared -Wl,--version-script=ver,-soname,liba.so.1,--hash-style=both,--audit=libaudit.so.9,-P,libdep.so.8,-f,aux.so,--build-id=sha1 a.c ./libl.so -o "$OUT/elf-gnu-dso-x86_64.so"
$C -shared -Wl,--version-script=ver,-soname,VA_1,--hash-style=sysv,-F,filtered.so,-z,norelro,--build-id=none a.c ./libl.so -o "$OUT/elf-gnu-base-x86_64.so"
cat > t.s <<'S'
.text
.globl f
f: ret
.data
x: .long f, g
.section .many,"aw",@nobits
.skip 12
S
as --32 t.s -o "$OUT/elf-gnu-i386.o"
ld -m elf_i386 -shared --hash-style=gnu -soname x.so "$OUT/elf-gnu-i386.o" -o "$OUT/elf-gnu-dso-i386.so"
chmod 644 "$OUT"/elf-gnu*
