#!/bin/bash
# Warms the build cache: builds the monitor with and without the race detector against /repo's working tree.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
MONITOR_BUILD_ONLY=1 bash "$HERE/run.sh" C01 && MONITOR_BUILD_ONLY=1 bash "$HERE/run.sh" C14
