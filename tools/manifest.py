#!/usr/bin/env python3
"""regenerate MANIFEST.json from the check modules that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Generated-input search against an explicit oracle: no violation among the cases explored (counts, classes and samples in '
        'the evidence file); absence beyond them is not established. Trusts CPython, the harness in vt/ and the oracle described in '
        'DESIGN.md.')
TECH = {
    'C01': 'model-based PBT: rule-by-rule reference matcher, random rule sets/paths + small-scope enumeration',
    'C02': 'model-based PBT: reference dispatch table over registration histories',
    'C03': 'PBT over handler-outcome trees with independent PEP 3333 validator',
    'C04': 'PBT over bodies x framing x read fragmentation, recording stream',
    'C05': 'PBT/fault injection over chunked encodings: every truncation and framing corruption vs reference decoder',
    'C06': 'metamorphic PBT: all single/double cuts vs one-piece parse and independent markup model',
    'C07': 'round-trip PBT of multipart forms',
    'C08': 'PBT over thread schedules with a deterministic scheduler (bounded preemption enumeration + sampling)',
    'C09': 'metamorphic PBT over request histories: history vs fresh application; retention counting',
    'C10': 'PBT over multi-application arrangements, nested and scheduled across threads',
    'C11': 'stateful model-based PBT over router edit histories + small-scope enumeration',
    'C12': 'grammar-based fuzzing of request bodies with status/termination/completeness oracle',
    'C13': 'PBT around limits with recording stream and reference decision',
    'C14': 'PBT over header values x setters with rejection/emission model',
    'C15': 'round-trip PBT + exhaustive tampering of signed cookies, unpickling observed',
    'C16': 'PBT over hostile names on a decoy tree, opened paths recorded',
    'C17': 'PBT vs RFC 7233 reference over file lengths x Range x dates',
    'C18': 'round-trip PBT + totality fuzzing of the query scanner',
    'C19': 'round-trip PBT: url() -> resolve',
    'C20': 'metamorphic PBT: hostile vs benign request text in error pages, tokenised; JSON validity',
}
checks, na = [], []
for i in range(1, 21):
    p = f'C{i:02d}'
    if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd=f'python3-vt check.py {p} quick', thorough_cmd=f'python3-vt check.py {p} thorough',
                           evidence_file=f'evidence/{p}.json', technique=TECH[p], level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=p, reason='check under construction'))
m = dict(version=1, setup_cmd='python3-vt -c "import hypothesis"', checks=checks, not_applicable=na,
         notes='No hooks in /repo; repairs are fix: commits listed in known_findings.json.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
