#!/bin/sh
# Development aid: runs every claimed check in parallel.
cd "$(dirname "$0")/.." || exit 1
python3 -c "import json;print('\n'.join(c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']))" |
  xargs -P 8 -I{} sh -c 'python3 sa/check.py {} > /tmp/all_{}.txt 2>&1; echo "{} $? $(tail -1 /tmp/all_{}.txt)"' | sort
