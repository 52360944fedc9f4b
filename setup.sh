#!/usr/bin/env bash
# Each check builds what it needs itself; this only confirms that the toolchains are there.
set -e
cargo +stable --version
cargo +nightly --version
cargo +nightly miri --version
