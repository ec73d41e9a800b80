#!/bin/bash
# Builds the native replayer and compiles the contract harnesses once, so that the checks start fast.
cd "$(dirname "$0")"
(cd native && cargo build --release --offline --target-dir ../target/native) || true
(cd kani && cargo kani --target-dir ../target/kani -Z stubbing -Z unstable-options --no-assertion-reach-checks \
  --output-format terse -j 8 --exact --harness enc::entity_pack) || true
exit 0
