#!/bin/bash
# Builds the simulator against /repo's working tree (checks rebuild by themselves when it changes).
cd "$(dirname "$0")" && bash sim/build.sh && SBC_ASAN=1 bash sim/build.sh
