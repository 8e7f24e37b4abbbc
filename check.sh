#!/bin/bash
# ./check.sh <property> [quick|thorough]   decide one property on /repo's working tree
# ./check.sh --replay <file>               evaluate the input of a replay file again
cd "$(dirname "$0")" && exec python3 tools/run.py "$@"
