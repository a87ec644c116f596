#!/bin/bash
# check.sh PROPERTY TIER: build the machinery if needed and decide one property of /repo's working tree.
export TZ=UTC
cd "$(dirname "$0")" || exit 2
bash ./setup.sh || exit 2
exec ./bin/vx check -prop "$1" -tier "$2"
