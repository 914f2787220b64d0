#!/bin/bash
# Nothing to build: the monitors are Python and import the code under test from /repo.  Says whether they can run.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
chmod +x check.sh
for py in /opt/venv-pypy/bin/python /opt/venv/bin/python; do
	"$py" -B -c 'import six, pytz, requests, urllib3, mysql.connector, sys; print(sys.version.split()[0], "ready")' || exit 1
done
