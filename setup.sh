#!/bin/bash
# Builds the harness (offline) from the committed files and /repo's working tree.
cd "$(dirname "$0")" && exec ./build.sh
