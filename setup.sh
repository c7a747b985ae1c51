#!/bin/sh
# Nothing has to be built (pure Python, imported from /repo's working tree);
# verify that the tools the checks rely on are there.
here=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1 \
    "${XYLEM_PYTHON:-/opt/venv/bin/python}" -W ignore -c '
import pbt.env
pbt.env.add_tools()
import hypothesis, yaml, six, pkg_resources
print("hypothesis", hypothesis.__version__, "yaml", yaml.__version__)
'
