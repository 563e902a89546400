#!/bin/sh
# Nothing to build: the checks run the python sources of /repo directly.
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
mkdir -p "$here/evidence" "$here/replays"
exec "$py" -B -c "import sys; sys.path.insert(0, '/repo'); import resync.client, resync.explorer, resync.dump; print('ready')"
