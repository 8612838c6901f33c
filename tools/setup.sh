#!/bin/bash
# Checks that the tools are there; the checks themselves build what they need.
set -e
cd "$(dirname "$0")/.."
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
javac -d "$d" -cp /opt/veriftools/tla/tla2tools.jar java/Num.java
test -x /opt/venv/bin/python
ls "$d" >/dev/null
rm -rf "$d"
echo ok
