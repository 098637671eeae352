# Build environment shared by the checks (source it).
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR=${VP_TARGET:-/verif/target}
# cargo does not rebuild the C++ part when only the sources under cc/ change: make them part of the compiler flags
export CXXFLAGS="-DVP_SOURCE_HASH=h$(cat /repo/clickhouse-rs-cityhash-sys/src/cc/* /repo/clickhouse-rs-cityhash-sys/build.rs 2>/dev/null | sha256sum | cut -c1-16)"
