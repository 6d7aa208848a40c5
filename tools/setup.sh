#!/bin/bash
# Nothing to install: checks build on the fly. Verify the tools are there.
cd "$(dirname "$0")/.." && mkdir -p evidence replays && clang --version >/dev/null && clang++ --version >/dev/null
