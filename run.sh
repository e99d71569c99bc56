#!/bin/bash
# usage: run.sh <property id> quick|thorough      (or: run.sh replay <file>)
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
cd "$here"
exec python -m mc.engine "$@"
