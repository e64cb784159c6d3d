#!/bin/bash
# usage: tools/seed.sh <id> : takes the uncommitted change of ${MUT:-/tmp/mut} (a copy of /repo) as
# seeded/<id>/patch.diff.  Run tools/seedcheck.sh <id> afterwards.
set -e
mkdir -p /verif/seeded/$1
git -C ${MUT:-/tmp/mut} diff > /verif/seeded/$1/patch.diff
git -C ${MUT:-/tmp/mut} checkout -q -- .
