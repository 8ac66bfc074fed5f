#!/bin/bash
# Nothing to build: the checks import the package from /repo/python at run time. Verify the interpreter and its libraries.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import lxml, polib, fluent.syntax, iniparse, gitignorant, jsonschema; print("ok")'
