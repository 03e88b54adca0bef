#!/bin/bash
# Builds the simulator against /repo's working tree.
cd "$(dirname "$0")" && exec bash ./build.sh
