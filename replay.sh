#!/bin/bash
# replay.sh FILE.replay: compile /repo's current sources with the harness named
# in the replay file and run the recorded choices on the compiled code.
# exit 66: postcondition violated; 99: sanitizer report; 0: no failure.
exec python3 "$(dirname "$0")/run.py" --replay "$1"
