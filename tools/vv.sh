#!/bin/sh
# vv.sh ID [spec]: extract and verify, print errors (development helper)
cd "$(dirname "$0")/.."; s=${2:-spec.rs}; mkdir -p /tmp/vv
python3 tools/vx.py props/$1/$s /tmp/vv/$1.rs >/tmp/vv/$1.json || { tail -2 /tmp/vv/$1.json; exit 1; }
verus /tmp/vv/$1.rs --triggers-mode silent --multiple-errors 10 $VVX 2>&1 | grep -A${VVN:-14} -E "^error|verification"
