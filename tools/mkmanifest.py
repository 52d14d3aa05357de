#!/usr/bin/env python3
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(V + '/spec/map.json'))
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], stdout=subprocess.PIPE).stdout.decode().splitlines() if ' verif hook' in l]
def note(i, c):
    n = sum(len(v) for v in c['functions'].values())
    a = f"Verus discharges the contracts of {n} functions extracted from /repo on every run (units {', '.join(c['functions'])}); " if n else ''
    return a + f"what these contracts leave open is covered by a bounded stand-in, never counted as proved: {c['bounded_what']}. Trusted: tree-sitter and its grammars and queries, std/ropey/url contracts, the extractor's rewrites (DESIGN.md)."
checks = [{'property': i, 'quick_cmd': f'python3 tools/check.py {i}', 'thorough_cmd': f'python3 tools/check.py {i}', 'technique': 'contracts on the real functions discharged by Verus/Z3' + ('; bounded differential cases for what is outside' if c['functions'] else ' (none discharged yet); bounded differential cases'), 'level': c['level'], 'level_note': note(i, c)} for i, c in M.items()]
json.dump({'version': 1, 'setup_cmd': 'python3 tools/check.py --setup',
 'hooks': {'guard': 'cfg(jinja_verif)', 'enable': 'RUSTFLAGS="--cfg jinja_verif"', 'source_commits': hooks},
 'checks': checks,
 'not_applicable': [],
 'notes': 'known-findings.txt lists recorded and repaired defects; DESIGN.md explains the method.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
