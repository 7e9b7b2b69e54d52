#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the texts below and the check modules."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import env  # noqa: E402

env.setup()

YW = 'src/pywriter/yw/yw7_file.py'
PY = 'src/pywriter/'

PROPS = {}


def prop(i, statement, over, text, why, files, mech, technique, note, observe=(), hook=None):
    PROPS[i] = dict(statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note,
                    observe=list(observe), hook=hook)


exec(open(os.path.join(ROOT, 'tools', 'props.py'), encoding='utf-8').read())


def main():
    lines, checks = [], []
    for i in sorted(PROPS):
        p = PROPS[i]
        for f in p['files']:
            assert os.path.isfile('/repo/' + f), f
        mod = importlib.import_module(f'mc.checks.{i.lower()}')
        assert mod.ID == i and len(mod.TITLE) <= 80, (i, len(mod.TITLE))
        lines.append(json.dumps({
            'id': i, 'title': mod.TITLE, 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': p['hook']}}, ensure_ascii=False))
        checks.append({
            'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json', 'technique': p['technique'], 'level': mod.LEVEL, 'level_note': p['note']})
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 -B -c "import sys; assert sys.version_info >= (3, 8)"',
        'checks': checks,
        'not_applicable': NOT_APPLICABLE,
        'notes': 'All checks run the real code of /repo/src in-process under exhaustive enumeration (see DESIGN.md); '
                 'they need Python 3 only. Replay a violation with: python3 check.py ID --replay FILE.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == "__main__":
    main()
