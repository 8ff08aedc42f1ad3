#!/bin/sh
# nothing to build: the checks read /repo's source on every run
cd "$(dirname "$0")" || exit 1
chmod +x check.sh
exec python3-vt -c "import z3, psym.run; print('z3', z3.get_version_string())"
