#!/bin/bash
. /opt/vp/env.sh; export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER=/verif/harness/rustc-wrap.sh CARGO_TARGET_DIR=/verif/build
cd /verif/harness && cargo build --offline
