"""Writes properties.jsonl and MANIFEST.json from the catalog."""
import json
from pathlib import Path

from pbt.catalog import P

HOME = Path(__file__).resolve().parent.parent
NOT_APPLICABLE = []


def main():
    lines, checks = [], []
    for pid in sorted(P):
        p = P[pid]
        if not (HOME / 'pbt' / f'prop_{pid.lower()}.py').exists():
            print('no module:', pid)
            continue
        anchors = {'files': p['files'], 'mechanism': p['mechanism']}
        if p['observe']:
            anchors['observe_at'] = p['observe']
        if p['state']:
            anchors['state'] = p['state']
        assert len(p['title']) <= 80, (pid, len(p['title']))
        lines.append(json.dumps({
            'id': pid, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'], 'anchors': anchors}))
        checks.append({
            'property': pid,
            'quick_cmd': f'./run.sh {pid} quick',
            'thorough_cmd': f'./run.sh {pid} thorough',
            'technique': 'property-based testing (Hypothesis) against reference models',
            'level': 'exploration',
            'level_note': p['note'],
        })
    (HOME / 'properties.jsonl').write_text('\n'.join(lines) + '\n')
    (HOME / 'MANIFEST.json').write_text(json.dumps({
        'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
        'not_applicable': NOT_APPLICABLE,
        'notes': 'No hooks are needed: the checks drive the public interface.',
    }, indent=1) + '\n')
    print(len(checks), 'properties')


main()
