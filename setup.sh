#!/bin/sh
# Nothing to install: every check builds itself from /repo's working tree. Fails early if a tool is missing.
cd "$(dirname "$0")" && mkdir -p build evidence replays && g++ --version >/dev/null && python3 -c 'import concurrent.futures'
