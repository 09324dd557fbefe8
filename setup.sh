#!/bin/bash
# Builds the harness once so that the checks only rebuild what changed.
cd "$(dirname "$0")/harness" && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true exec cargo build --offline --quiet
