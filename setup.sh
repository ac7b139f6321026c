#!/bin/bash
# builds the symbolic executor (the only thing that does not depend on /repo)
set -e
cd "$(dirname "$0")"
python3 -c "import check; check.ensure_engine()"
