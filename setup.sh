#!/bin/bash
# Nothing to build: the checks import pydarnio from /repo and hypothesis from the tool venv. Verify that this works here.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); from lib import env, harness; import pydarnio, h5py, hypothesis; print('ok', pydarnio.__file__, hypothesis.__version__)"
