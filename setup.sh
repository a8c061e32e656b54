#!/bin/bash
# nothing to build: the checks are Python and import the code from /repo/src; this only confirms that they can start
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo/src:$here" /opt/venv/bin/python -c "import numpy, scipy, sklearn, wai.ma, mc.engine"
