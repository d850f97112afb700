#!/bin/bash
# Build the fact extractor (offline) and prime its dependency cache.
cd "$(dirname "$0")" && mkdir -p build && ./extract.sh build/facts
