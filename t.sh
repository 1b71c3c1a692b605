#!/bin/bash
# dev helper: run a check with short output
cd /verif; python3 run.py "$@" > /tmp/out.txt 2>&1; rc=$?
grep -E "error:" /tmp/out.txt | cut -c1-300 | head -8
grep -vE "required from|In instantiation|note:|^ *[0-9]* \||error:" /tmp/out.txt | cut -c1-700 | tail -${LINES_:-25}; echo rc=$rc
