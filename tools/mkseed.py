#!/usr/bin/env python3
"""usage: mkseed.py ID PROPERTY FILE < edits: write a planted change from a replacement in a file of /repo.

Standard input: the old text, a line '====', the new text, a line '==== needs', what it needs, a line
'==== breaks', what it breaks, a line '==== demo', the program (several edits: see '==== file NAME').
"""
import difflib
import json
import os
import re
import shutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name, prop = sys.argv[1:3]
sections = re.split(r'(?m)^====(.*)\n', sys.stdin.read())
edits, extra = [], {}
file = sys.argv[3]
old = sections[0]
for kind, text in zip(sections[1::2], sections[2::2]):
    kind = kind.strip()
    if kind == '':
        edits.append((file, old, text))
    elif kind.startswith('file '):
        file, old = kind[5:], text
    else:
        extra[kind] = text
out = []
for path in dict.fromkeys(e[0] for e in edits):
    before = after = open(os.path.join('/repo', path)).read()
    for p, a, b in edits:
        if p == path:
            if after.count(a) != 1:
                sys.exit('%d occurrences of %r in %s' % (after.count(a), a, p))
            after = after.replace(a, b)
    out.extend(difflib.unified_diff(before.splitlines(True), after.splitlines(True),
                                    'a/' + path, 'b/' + path))
dest = os.path.join(HERE, 'seeded', name)
os.makedirs(dest, exist_ok=True)
open(os.path.join(dest, 'patch.diff'), 'w').write(''.join(out))
json.dump({'property': prop, 'needs': ' '.join(extra['needs'].split()),
           'what_it_breaks': ' '.join(extra['breaks'].split())},
          open(os.path.join(dest, 'meta.json'), 'w'), indent=1)
open(os.path.join(dest, 'demo.py'), 'w').write(extra['demo'])
open(os.path.join(dest, 'demo.sh'), 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 1
export PYTHONPATH="$here/stubs" PYTHONDONTWRITEBYTECODE=1 ROS_LOG_DIR="$scratch/log" HOME="$scratch"
timeout -k 5 120 /opt/venv/bin/python -W ignore "$here/demo.py"
''')
stubs = os.path.join(dest, 'stubs')
shutil.rmtree(stubs, ignore_errors=True)
shutil.copytree(os.path.join(HERE, 'lib', 'stubs'), stubs,
                ignore=shutil.ignore_patterns('__pycache__'))
