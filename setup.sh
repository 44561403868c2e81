#!/bin/bash
# builds the engine and warms the Go build cache
set -e
cd "$(dirname "$0")"
bash ./build-engine.sh
