#!/bin/bash
# Nothing has to be installed: checks build what they need on demand. This only fails early
# when the interpreter or its libraries are missing.
py=/opt/venv/bin/python
[ -x "$py" ] || py=$(command -v python3)
exec "$py" -B -c 'import numpy, sqlite3, sys; print(sys.version.split()[0], numpy.__version__, sqlite3.sqlite_version)'
