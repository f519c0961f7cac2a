#!/bin/sh
# nothing to build: the verifier is interpreted; checks lower /repo's current sources themselves
cd "$(dirname "$0")/.." && mkdir -p evidence out && python3-vt -c "import z3, sys; sys.path[:0]=['vc']; import lower; print(z3.get_version_string(), lower.tool_versions())"
