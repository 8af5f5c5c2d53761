#!/bin/bash
# nothing to build: the simulator is pure Python and imports /repo/src directly; check that it can
cd "$(dirname "$0")" || exit 1
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
exec "$PY" -W ignore -c "from dst import runner, props; runner.prepare(); print('ready:', ' '.join(props.ids()))"
