"""
The description of the properties: writes properties.jsonl and MANIFEST.json.

Usage: python -m mc.meta
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []
CHECKS = []
NOT_APPLICABLE = []

def prop(pid, title, statement, over, text, why, files, mechanism,
         technique=None, level='exploration', note='', observe=(), state=(),
         na=None):
    item = {
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': list(files),
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    }
    if state:
        item['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w}
                                    for n, m, w in state]
    assert len(title) <= 80, title
    PROPS.append(item)
    if na is not None:
        NOT_APPLICABLE.append({'property': pid, 'reason': na})
    else:
        CHECKS.append({
            'property': pid,
            'quick_cmd': 'VERIF_TIER=quick ./check %s' % pid,
            'thorough_cmd': 'VERIF_TIER=thorough ./check %s' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': technique, 'level': level, 'level_note': note,
        })

def main():
    from mc import meta_props
    meta_props.define(prop)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fd:
        for item in PROPS:
            fd.write(json.dumps(item) + '\n')
    out = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': CHECKS,
        'not_applicable': NOT_APPLICABLE,
        'notes': 'All checks run the real code imported from /repo. See'
                 ' DESIGN.md; hooks in /repo are not needed. Extensions whose'
                 ' sources differ from the recorded build are recompiled into'
                 ' .build/ by the checks.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fd:
        json.dump(out, fd, indent=1)
        fd.write('\n')

if __name__ == '__main__':
    import mc.meta as meta
    meta.main()
