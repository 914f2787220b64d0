#!/bin/bash
# check.sh <PROPERTY> [--replay FILE]: decide one property by monitoring executions of /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
for py in /opt/venv/bin/python /opt/venv-pypy/bin/python python3; do
	if command -v "$py" >/dev/null 2>&1 && "$py" -c 'import six, pytz, requests' >/dev/null 2>&1; then
		cd "$here" && exec "$py" -B -m wlmon "$@"
	fi
done
echo "no usable Python interpreter" >&2
exit 3
