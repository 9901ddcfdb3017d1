#!/bin/bash
export PYTHONPATH=/repo/build/install/site PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
