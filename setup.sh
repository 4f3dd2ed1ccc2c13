#!/bin/bash
# checks that what the framework needs is there; unpacks Hypothesis next to it when the tools' own venv has none
cd "$(dirname "$0")" || exit 1
py=/opt/venv/bin/python
if ! PYTHONDONTWRITEBYTECODE=1 $py -c 'from vlib import boot; import hypothesis' 2>/dev/null; then
    mkdir -p .deps
    for w in /opt/veriftools/wheels/{hypothesis,sortedcontainers,attrs}-*.whl; do
        $py -m zipfile -e "$w" .deps || exit 1
    done
fi
PYTHONDONTWRITEBYTECODE=1 $py -c 'from vlib import boot; import hypothesis; print("hypothesis", hypothesis.__version__)'
