#!/bin/sh
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
exec python3-vt -m psym.run "$1" --tier "${2:-quick}" ${3:+"$3"} ${4:+"$4"}
