#!/bin/bash
# Builds the simulation binaries once, so that the checks only rebuild what changed.
cd "$(dirname "$0")/.." || exit 1
for b in $(ls sim | grep -vx -e fw -e rt); do
  bash tools/build.sh "$b" || exit 1
done
