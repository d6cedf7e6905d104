#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
checks = []
for pid in sorted(props.PROPS):
    P = props.PROPS[pid]
    proof = bool(P['units'])
    checks.append(dict(
        property=pid,
        quick_cmd='python3 tools/run_check.py %s quick' % pid,
        thorough_cmd='python3 tools/run_check.py %s thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique='contracts on the extracted real code, discharged by Verus (Z3); run-time contract monitor as bounded stand-in for what is assumed' if proof
        else 'run-time checking of the contracts on the real code (bounded)',
        level=P['level'], level_note=P.get('note', 'bounded: the contracts are evaluated at run time on generated runs of the real code; nothing is proved'),
    ))
m = dict(
    version=1, setup_cmd='bash tools/setup.sh',
    hooks=dict(guard='cfg(cmaes_verif)', enable='RUSTFLAGS="--cfg cmaes_verif" and CMAES_VERIF_SPECS=<directory of hook files> (monitor/hooks); set by tools/run_check.py',
               source_commits=['HASH']),
    checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in props.NOT_APPLICABLE.items()],
)
m['hooks']['source_commits'] = props.HOOK_COMMITS
json.dump(m, open(os.path.join(os.path.dirname(HERE), 'MANIFEST.json'), 'w'), indent=1)
