#!/bin/bash
# build the simulators against /repo's working tree
set -e
cd /verif/sim
bash /verif/sim/dev.sh --bins
mkdir -p /verif/evidence /verif/replays
