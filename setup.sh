#!/bin/bash
# checks that the tools the checks use are there; the checks build what they need themselves
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
chmod +x run.sh
/opt/venv/bin/python -c 'import markupsafe, sys; assert sys.version_info[:2] == (3, 12)' || exit 1
command -v gcc >/dev/null && command -v node >/dev/null || exit 1
exit 0
