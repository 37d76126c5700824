#!/bin/bash
# Development-time only: makes the files under sim/data/corpus with the toolchains of the sandbox.
# The checks only read the committed results.
set -u
export PATH=$PATH:/usr/lib/llvm-18/bin
OUT=${1:-/verif/sim/data/corpus}
W=$(mktemp -d); trap 'rm -rf -- "$W"' EXIT
cd "$W" || exit 1
cat > a.c <<'C'
static int counter = 3; int shared = 7; int zeroed; static char buf[40];
const char *const greeting = "hello, world"; __attribute__((weak)) int maybe(int x);
__attribute__((visibility("hidden"))) int hidden_one(int x) { return x * counter; }
extern int imported(int, const char *); extern int imported_data;
static int helper(int a) { buf[a & 31]++; return a + shared; }
int (*table[])(int) = { hidden_one, helper, maybe };
int entry(int a) { return imported(helper(a), greeting) + imported_data + hidden_one(a) + (maybe ? maybe(a) : 0) + zeroed; }
__attribute__((weak)) int weak_def(void) { return 1; }
C
cat > tls.c <<'C'
__thread int t1 = 5; __thread int t2; int get(void) { return t1 + t2++; }
C
cat > b.cpp <<'C'
template <class T> struct S { T v; T get() const { static int calls = 1; return v + calls++; } };
inline int inl(int x) { static int n; return n += x; }
int use(int a) { S<int> s{a}; S<long> l{a}; return s.get() + l.get() + inl(a); }
C
echo 'int imported_data = 4; int imported(int a, const char *s) { return a + s[0]; } int maybe(int x) { return x; }' > lib.c
cat > main.c <<'C'
int imported_data = 4; int imported(int a, const char *s) { return a + s[0]; } int entry(int); int shared2 = 1;
void _start(void) { entry(1); } int __start(void) { return entry(2); }
C
CC="clang -O1 -fno-ident -fno-asynchronous-unwind-tables -fno-stack-protector -ffreestanding"
try() { "$@" 2>>log || { echo "failed: $*" | cut -c1-200; return 1; }; }
put() { cp "$1" "$OUT/$2"; }
for t in x86_64 i686 aarch64 armv7 armebv7 riscv64 riscv32 mips mips64el powerpc powerpc64le powerpc64 s390x sparcv9 sparc loongarch64 hexagon avr msp430 bpfel bpfeb m68k aarch64_be lanai x86_64-x32; do
  tt=$t-unknown-linux-gnu; [ $t = x86_64-x32 ] && tt=x86_64-unknown-linux-gnux32
  $CC --target=$tt -fPIC -c a.c -o o 2>>log && put o elf-rel-$t.o || { $CC --target=$tt -c a.c -o o 2>>log && put o elf-rel-$t.o || echo "no $t"; }
done
X="--target=x86_64-unknown-linux-gnu"
try $CC $X -g -c b.cpp -o o && put o elf-comdat-g-x86_64.o
try $CC $X -g -gz=zlib -ffunction-sections -c b.cpp -o o && put o elf-gz-x86_64.o
try $CC $X -g -gz=zstd -c b.cpp -o o && put o elf-gzstd-x86_64.o
try $CC --target=powerpc-unknown-linux-gnu -g -gz=zlib -c b.cpp -o o && put o elf-gz-powerpc.o
try $CC $X -fPIC -c tls.c -o o && put o elf-tls-x86_64.o
try $CC $X -fPIC -fasynchronous-unwind-tables -fcf-protection -c a.c -o a.o
try $CC $X -fPIC -c main.c -o main.o; try $CC $X -fPIC -c tls.c -o tls.o
echo 'V1 { global: entry; shared; }; V2 { global: t1; get; weak_def; local: hidden*; } V1;' > ver
cp main.o extra.o; try ld.lld -shared --soname=libextra.so.3 main.o -o libextra.so
echo 'EX_1.0 { global: imported*; }; EX_2.0 { global: shared2; } EX_1.0;' > ver2
try ld.lld -shared --soname=libextra.so.3 --version-script=ver2 main.o -o libextra.so
try ld.lld -shared --soname=liba.so.1 --version-script=ver --hash-style=both --build-id=sha1 -rpath /opt/lib a.o tls.o libextra.so -o o && put o elf-dso-x86_64.so
try ld.lld -shared --hash-style=gnu --pack-dyn-relocs=relr -z now -z separate-code a.o libextra.so -o o && put o elf-dso-relr-x86_64.so
try ld.lld -pie --dynamic-linker /lib/ld.so --build-id=0x0102030405060708 a.o main.o -o o --emit-relocs && put o elf-pie-x86_64
try ld.lld -static a.o main.o -o o && put o elf-static-x86_64
try llvm-objcopy --add-gnu-debuglink=log o o2 2>>log; printf 'debug file' > dbg.debug; try llvm-objcopy --add-gnu-debuglink=dbg.debug o o2 && put o2 elf-debuglink-x86_64
try llvm-strip --strip-sections o -o o3 && put o3 elf-nosections-x86_64
for t in i686:elf_i386 powerpc:elf32ppclinux mips:elf32btsmip aarch64:aarch64linux riscv64:elf64lriscv powerpc64le:elf64lppc armv7:armelf_linux_eabi s390x:elf64_s390 mips64el:elf64ltsmip; do
  n=${t%%:*}
  try $CC --target=$n-unknown-linux-gnu -fPIC -c a.c -o a1.o; try $CC --target=$n-unknown-linux-gnu -fPIC -c main.c -o m1.o
  hs="--hash-style=both"; case $n in mips*) hs="--hash-style=sysv";; esac
  try ld.lld -shared $hs --version-script=ver2 --soname=libm1.so m1.o -o libm1.so
  echo 'V1 { global: entry; shared; }; V2 { global: weak_def; local: hidden*; } V1;' > ver3
  try ld.lld -shared $hs --version-script=ver3 --soname=liba.so.2 a1.o libm1.so -o o && put o elf-dso-$n.so
done
# many sections/symbols via extended numbering is done by the simulator itself
cat > core.yaml <<'Y'
--- !ELF
FileHeader: {Class: ELFCLASS64, Data: ELFDATA2LSB, Type: ET_CORE, Machine: EM_X86_64}
Sections:
  - {Name: note0, Type: SHT_NOTE, Notes: [{Name: CORE, Desc: "0102030405060708", Type: NT_PRSTATUS}, {Name: LINUX, Desc: "01020304", Type: 0x202}, {Name: "abc", Desc: "", Type: 0x1}]}
ProgramHeaders:
  - {Type: PT_NOTE, FirstSec: note0, LastSec: note0}
  - {Type: PT_LOAD, Flags: [PF_R], VAddr: 0x1000, MemSize: 0x2000}
Y
try yaml2obj core.yaml -o o && put o elf-core-x86_64
# Mach-O
for t in x86_64-apple-macos11 arm64-apple-macos11 armv7-apple-ios9 i386-apple-macos10.12 arm64_32-apple-watchos7; do
  n=${t%%-*}
  try $CC --target=$t -c a.c -o o && put o macho-rel-$n.o
done
try $CC --target=x86_64-apple-macos11 -g -c b.cpp -o o && put o macho-cpp-g-x86_64.o
try $CC --target=arm64-apple-macos11 -g -c b.cpp -o o && put o macho-cpp-g-arm64.o
cat > libSystem.tbd <<'T'
--- !tapi-tbd
tbd-version: 4
targets: [ x86_64-macos, arm64-macos ]
install-name: '/usr/lib/libSystem.B.dylib'
current-version: 1311.100.3
exports:
  - targets: [ x86_64-macos, arm64-macos ]
    symbols: [ dyld_stub_binder, __tlv_bootstrap, _maybe ]
...
T
for a in x86_64 arm64; do
  T=$a-apple-macos12
  try $CC --target=$T -g -c a.c -o ma.o; try $CC --target=$T -g -c main.c -o mm.o; try $CC --target=$T -c lib.c -o ml.o; try $CC --target=$T -c tls.c -o mt.o; try $CC --target=$T -c b.cpp -o mb.o
  try ld64.lld -arch $a -platform_version macos 12 12 -dylib -install_name @rpath/libm.dylib -current_version 3.2.1 ml.o libSystem.tbd -o libm.dylib
  put libm.dylib macho-dylib-$a.dylib
  try ld64.lld -arch $a -platform_version macos 12 12 -no_fixup_chains -dylib -install_name /x/liba.dylib -rpath @loader_path/.. ma.o mt.o mb.o libm.dylib libSystem.tbd -o o && put o macho-binds-$a.dylib
  try ld64.lld -arch $a -platform_version macos 13 13 -fixup_chains -dylib -install_name /x/liba.dylib ma.o mt.o libm.dylib libSystem.tbd -o o && put o macho-chained-$a.dylib
  try ld64.lld -arch $a -platform_version macos 12 12 -undefined dynamic_lookup -e _entry ma.o mm.o libSystem.tbd -o mx && put mx macho-exe-$a
  try dsymutil mx -o dsym.dSYM; [ $a = arm64 ] && put dsym.dSYM/Contents/Resources/DWARF/mx macho-dsym-$a
  cp mx mx-$a; cp ma.o ma-$a.o
done
try llvm-lipo -create ma-x86_64.o ma-arm64.o -output o && put o macho-fat32.o
try llvm-lipo -create -fat64 ma-x86_64.o ma-arm64.o -output o && put o macho-fat64.o
# COFF
for t in x86_64 i686 aarch64 thumbv7; do
  try $CC --target=$t-pc-windows-msvc -c a.c -o o && put o coff-rel-$t.obj
done
try $CC --target=x86_64-pc-windows-gnu -g -gdwarf-4 -c b.cpp -o o && put o coff-comdat-gnu-x86_64.obj
try $CC --target=x86_64-pc-windows-msvc -g -gcodeview -ffunction-sections -c b.cpp -o o && put o coff-comdat-cv-x86_64.obj
try clang -O1 --target=x86_64-pc-windows-msvc -ffreestanding -c a.c -Wa,-mbig-obj -o o && put o coff-big-x86_64.obj
try clang -O1 --target=x86_64-pc-windows-msvc -ffreestanding -S a.c -o a.s && try llvm-mc -filetype=obj -triple x86_64-pc-windows-msvc --position-independent a.s -o o
cat > dll.c <<'C'
__declspec(dllexport) int alpha(int x) { return x + 1; } __declspec(dllexport) int beta_data = 9;
__declspec(dllimport) int outside(int); __declspec(dllimport) extern int outside_data; int later(int);
__declspec(dllexport) int gamma_fn(int x) { return outside(x) + outside_data + later(x); }
int *reloc_me = &beta_data; int (*fp)(int) = alpha; int _fltused; int _tls_index;
int DllMain(void *a, int b, void *c) { return 1; } int _DllMainCRTStartup(void *a, int b, void *c) { return DllMain(a,b,c); }
#ifdef __i386__
__attribute__((stdcall))
#endif
long long __delayLoadHelper2(void *a, void *b) { return 0; }
C
for t in x86_64:x64:x86-64 i686:x86:i386 aarch64:arm64:arm64 ; do
  n=${t%%:*}; m=$(echo $t | cut -d: -f2); k=$(echo $t | cut -d: -f3)
  printf 'LIBRARY out.dll\nEXPORTS\n outside\n outside_data DATA\n byord @7 NONAME\n' > out.def
  printf 'LIBRARY late.dll\nEXPORTS\n later\n' > late.def
  dt=i386:x86-64; case $n in i686) dt=i386;; aarch64) dt=arm64;; x86_64) dt=i386:x86-64;; esac
  try llvm-lib /def:out.def /machine:$m /out:out.lib; try llvm-lib /def:late.def /machine:$m /out:late.lib
  try $CC --target=$n-pc-windows-msvc -g -gcodeview -c dll.c -o dll.obj
  ent=""; [ $n = i686 ] && ent="/entry:DllMain /safeseh:no"; [ $n = i686 ] || ent="/entry:DllMain"
  printf 'LIBRARY my.dll\nEXPORTS\n alpha\n beta_data DATA\n gamma_fn @5\n fwd = other.func\n nameless=alpha @9 NONAME\n' > my.def
  printf '1 RCDATA { "some resource" }\nNAMED RCDATA { "other" }\n2 VERSIONINFO\nBEGIN\nEND\n' > r.rc
  llvm-rc r.rc /fo r.res 2>>log; llvm-cvtres /machine:$m r.res /out:res.obj 2>>log
  extra=""; [ -f res.obj ] && extra=res.obj
  try lld-link /dll /nodefaultlib $ent /def:my.def /out:my.dll /implib:my.lib /delayload:late.dll dll.obj $extra out.lib late.lib /debug:full /pdb:my.pdb /timestamp:1234567 /dynamicbase /largeaddressaware:no && put my.dll pe-dll-$n.dll
  put my.lib pe-implib-$n.lib
  [ $n = x86_64 ] && { [ -f res.obj ] && put res.obj coff-res-x86_64.obj; }
  try $CC --target=$n-pc-windows-msvc -c main.c -o main.obj; try $CC --target=$n-pc-windows-msvc -c a.c -o a.obj
  try lld-link /nodefaultlib /entry:__start /subsystem:console /force:unresolved /out:my.exe /timestamp:77 /safeseh:no main.obj a.obj && put my.exe pe-exe-$n.exe
done
P=/app/python311/lib/python3.11/site-packages/setuptools
cp $P/cli-32.exe $OUT/pe-msvc-32.exe; cp $P/cli-64.exe $OUT/pe-msvc-64.exe; cp $P/cli-arm64.exe $OUT/pe-msvc-arm64.exe
# short import objects: members of the import library
mkdir imp; (cd imp && llvm-ar x $OUT/pe-implib-x86_64.lib 2>>../log; i=0; for f in *; do i=$((i+1)); done; ls -la >> ../log)
python3 - "$OUT" <<'PY'
import sys,struct
out=sys.argv[1]
for n in ("x86_64","i686"):
    d=open(f"{out}/pe-implib-{n}.lib","rb").read()
    pos=8; k=0
    while pos+60<=len(d):
        size=int(d[pos+48:pos+58]); body=d[pos+60:pos+60+size]
        if body[:4]==b"\0\0\xff\xff" and k<3:
            open(f"{out}/coff-import-{n}-{k}.obj","wb").write(body); k+=1
        pos+=60+size+(size&1)
PY
# XCOFF
for t in powerpc powerpc64; do
  try $CC --target=$t-ibm-aix7.2 -c a.c -o o && put o xcoff-rel-$t.o
  try $CC --target=$t-ibm-aix7.2 -g -ffunction-sections -fdata-sections -c b.cpp -o o && put o xcoff-g-$t.o
done
# Wasm
try $CC --target=wasm32 -c a.c -o o && put o wasm-rel.o
try $CC --target=wasm32 -g -c b.cpp -o wb.o && put wb.o wasm-g-rel.o
try $CC --target=wasm32 -c a.c -o wa.o; try $CC --target=wasm32 -c main.c -o wm.o
try wasm-ld --no-entry --export-all --allow-undefined wa.o wm.o wb.o -o o && put o wasm-linked.wasm
try wasm-ld --no-entry --import-memory --export=entry --allow-undefined wa.o -o o && put o wasm-import.wasm
# Archives
for i in 1 2 3; do printf 'int f%d(void){return %d;} int d%d=%d;' $i $i $i $i > f$i.c; $CC $X -c f$i.c -o f$i.o; done
cp f1.o a_member_with_a_really_long_name.o; cp f2.o "name with spaces and length.o"; printf 'odd' > odd.txt
M="f1.o f2.o a_member_with_a_really_long_name.o name with spaces"
for fmt in gnu bsd darwin; do
  rm -f x.a; try llvm-ar --format=$fmt rcsU x.a f1.o odd.txt f2.o a_member_with_a_really_long_name.o "name with spaces and length.o" f3.o && put x.a ar-$fmt.a
done
for fmt in gnu darwin; do
  rm -f x.a; SYM64_THRESHOLD=1 try llvm-ar --format=$fmt rcsD x.a f1.o odd.txt f2.o a_member_with_a_really_long_name.o f3.o && put x.a ar-$fmt-64.a
done
rm -f x.a; try llvm-ar rcsD --thin x.a f1.o odd.txt a_member_with_a_really_long_name.o f3.o && put x.a ar-thin.a
rm -f x.a; try ar rcsU x.a f1.o odd.txt a_member_with_a_really_long_name.o f3.o && put x.a ar-gnubin.a
rm -f x.a; try llvm-ar rcS x.a f1.o odd.txt && put x.a ar-nosyms.a
rm -f x.a; try llvm-ar rc x.a && put x.a ar-empty.a
for t in powerpc powerpc64; do for i in 1 2; do $CC --target=$t-ibm-aix7.2 -c f$i.c -o xf$i-$t.o; done; done
rm -f x.a; try llvm-ar --format=bigarchive rcsD x.a xf1-powerpc.o xf2-powerpc64.o odd.txt xf1-powerpc64.o xf2-powerpc.o && put x.a ar-aixbig.a
$CC --target=x86_64-pc-windows-msvc -c f1.c -o w1.obj; $CC --target=x86_64-pc-windows-msvc -c f2.c -o w2_with_a_name_that_is_long.obj
try llvm-lib /out:x.lib w1.obj w2_with_a_name_that_is_long.obj && put x.lib ar-coff.lib
# from other toolchains (Go's test data: gcc, clang, Apple ld of several ages)
G=/usr/local/go/src/debug
for f in compressed-32.obj compressed-64.obj gcc-386-freebsd-exec gcc-amd64-openbsd-debug-with-rela.obj zdebug-test-gcc484-x86-64.obj libtiffxx.so_ go-relocation-test-gcc620-sparc64.obj go-relocation-test-gcc540-mips.obj go-relocation-test-gcc493-mips64le.obj; do cp $G/elf/testdata/$f $OUT/elf-go-${f%.obj}; done
gzip -dc $G/elf/testdata/hello-world-core.gz > core; ls -la core >> log
cp $G/dwarf/testdata/line-gcc-zstd.elf $OUT/elf-go-zstd
XM=/root/go/pkg/mod/golang.org/x/tools@v0.52.0/cmd/splitdwarf/internal/macho/testdata
for f in clang-386-darwin-exec-with-rpath clang-386-darwin.obj gcc-amd64-darwin-exec gcc-amd64-darwin-exec-debug; do cp $XM/$f $OUT/macho-go-${f%.obj}; done
GX=/usr/local/go/src/internal/xcoff/testdata
for f in gcc-ppc32-aix-dwarf2-exec gcc-ppc64-aix-dwarf2-exec bigar-ppc64 bigar-empty; do [ -f $GX/$f ] && [ $(stat -c %s $GX/$f) -lt 200000 ] && cp $GX/$f $OUT/xcoff-go-$f; done
cp $G/pe/testdata/gcc-386-mingw-obj $OUT/coff-go-gcc-386-mingw-obj 2>/dev/null
chmod 644 $OUT/*
tail -40 log
