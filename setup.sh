#!/bin/bash
# builds the simulator once so that the checks only rebuild what changed
cd "$(dirname "$0")" && mkdir -p build && exec ./sim/build.sh "$PWD/build/b"
