#!/bin/bash
# replay.sh FILE: re-runs the single case of a VIOLATION's replay file.
MC_CMD=replay exec bash "$(dirname "$0")/run.sh" "$(realpath "$1")"
