#!/bin/bash
# exit 0: the property holds for this history; nonzero: it is broken
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
