#!/bin/bash
# usage: check.sh <property id>
cd "$(dirname "$0")" && exec python3 run/check.py "$1"
