#!/bin/bash
# builds the fact exporter (about 20 s) and, to report a broken environment early, one fact file
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, '.')
from engine import extract
print('exporter:', extract.exporter())
print(extract.facts(['lib/utils/utils.cpp']))
P
