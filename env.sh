export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS=-Ctarget-cpu=x86-64-v3
