export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.99.1
unset LD_LIBRARY_PATH RUSTFLAGS CARGO_TARGET_DIR
