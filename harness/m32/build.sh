#!/bin/bash
# Builds the explorer, the crate under test and std itself for 32-bit x86 Linux.
# No 32-bit toolchain is installed, only the 32-bit runtime libraries
# (/usr/lib32), so this provides what is missing: std is compiled from rust-src,
# and the link step gets a start file and library names.
# Usage: m32/build.sh PROFILE      (binary: target32/i686-unknown-linux-gnu/PROFILE/mc)
cd "$(dirname "$0")/.." || exit 2
B="$PWD/target32/sys"
mkdir -p "$B" || exit 2
for p in libc.so:libc.so.6 libm.so:libm.so.6 libgcc_s.so:libgcc_s.so.1 libdl.so:libdl.so.2 libpthread.so:libpthread.so.0 librt.so:librt.so.1 libutil.so:libutil.so.1; do
  [ -e "/usr/lib32/${p#*:}" ] || { echo "32-bit runtime library ${p#*:} is missing" >&2; exit 2; }
  ln -sfn "/usr/lib32/${p#*:}" "$B/${p%%:*}"
done
gcc -m32 -fno-pie -fno-stack-protector -O1 -c m32/start.c -o "$B/start.o" || exit 2
cat > "$B/gcc" <<S
#!/bin/bash
a=()
for x in "\$@"; do [ "\$x" = -lgcc ] || a+=("\$x"); done
exec gcc -m32 -no-pie -nostartfiles -nodefaultlibs "$B/start.o" "-L$B" \\
  -Wl,-dynamic-linker,/usr/lib32/ld-linux.so.2 -Wl,-rpath,/usr/lib32 "\${a[@]}" -lc -lgcc_s
S
chmod +x "$B/gcc"
V="$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library/vendor"
[ -d "$V" ] || { echo "rust-src of the nightly toolchain is missing" >&2; exit 2; }
export CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER="$B/gcc"
export CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_RUSTFLAGS="-Crelocation-model=static -Awarnings"
exec cargo +nightly build --offline --profile "$1" --target i686-unknown-linux-gnu --target-dir target32 \
  -Zbuild-std=std,panic_unwind \
  --config 'source.crates-io.replace-with="rust-src-vendor"' --config "source.rust-src-vendor.directory=\"$V\""
