#!/bin/bash
# offline: nothing to build; confirms that the interpreter, the package and the generator library load
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 1
mkdir -p evidence
PYTHONPATH="/repo/src:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig HOME=/root \
  /opt/venv/bin/python -W ignore -c "import harness, hypothesis, craterstats; print('hypothesis', hypothesis.__version__, craterstats.__file__)"
