#!/bin/bash
# Sensitivity test: run a check with files of /repo as they were in the base commit.
# usage: orig.sh CHECK file...
P=$1; shift
cd /repo && for f in "$@"; do git show $(git rev-list --max-parents=0 HEAD | tail -1):$f > $f; done
cd /verif && timeout 800 ./run.sh $P --no-evidence 2>&1 | tail -4 | cut -c1-700
git -C /repo checkout -q -- .
