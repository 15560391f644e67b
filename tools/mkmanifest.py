#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
checks = [dict(property=p,
               quick_cmd=f'python3 run.py check {p} quick',
               thorough_cmd=f'python3 run.py check {p} thorough',
               evidence_file=f'evidence/{p}.json',
               technique='deterministic simulation with fault injection: ' + PROPS[p]['technique'],
               level='exploration',
               level_note=PROPS[p]['note']) for p in sorted(PROPS)]
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'not built yet')) for p in ids if p not in PROPS]
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every seam is a libc, allocator, compiler-coverage or toolkit entry point that the '
               'harness executable defines itself. Each check compiles the sources from /repo\'s working tree. '
               'Environment: VERIF_SEED, SIM_SECONDS (exploration time), SIM_JOBS, SIM_REPO, SIM_BUILD.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
