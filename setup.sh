#!/bin/bash
# nothing to build: checks run the project's own interpreter on /repo; only verify it is usable
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/evidence"
python -c "import jax, numpy, scipy, meshio; print('ok')"
