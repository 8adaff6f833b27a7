#!/bin/bash
# Builds everything once, so that the checks only rebuild what changed
cd "$(dirname "$0")" || exit 2
tools/build.sh || exit 2
tools/build_san.sh || exit 2
