#!/bin/bash
# builds the symbolic executor
set -e
cd "$(dirname "$0")/engine"
cargo build --release --offline
