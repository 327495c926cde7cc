#!/bin/sh
# replay.sh <replays/ID.json>: re-run the recorded failing cases against the real crate
exec python3 "$(dirname "$0")/replay.py" "$@"
