#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (run after editing it)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
SAN = 'run the daemon built from /repo (clang ASan+UBSan, link-time clock and fault shim) between fake clients and fake servers; '

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='exploration', state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           **({'state': [{'name': a, 'meaning': b} for a, b in state]} if state else {}),
                           'observe_at': observe or 'UDP and TCP packets at the client and server side of the daemon',
                           'hook_needed': 'none in the source; clock and faults are interposed at link time'},
                  _check=dict(technique=technique, level=level, level_note=note)))


exec(open(os.path.join(HERE, 'proplist.py')).read())


def check_texts(pid):
    """RULE and ASSUMPTIONS of a check, without running it."""
    import ast
    out = {}
    for n in ast.parse(open(os.path.join(HERE, 'checks', pid.lower() + '.py')).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('RULE', 'ASSUMPTIONS'):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def block(text, name, new):
    a, b = '<!-- %s:begin -->' % name, '<!-- %s:end -->' % name
    return text[:text.index(a) + len(a)] + '\n' + new + '\n' + text[text.index(b):]


def design():
    """Fills the generated parts of DESIGN.md (section 2 from the list and the checks, section 6 from seeded/)."""
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    out = []
    for p in P:
        t = check_texts(p['id'])
        out += ['### %s %s' % (p['id'], p['title']), '', '* *Monitored, oracle:* ' + t['RULE'],
                '* *Bounds:* %s%s' % (p['_check']['level_note'], ''.join(' ' + x[0].upper() + x[1:] + '.' for x in t.get('ASSUMPTIONS', []))),
                '* *Reach and cost:* %s' % REACH[p['id']], '']
    text = block(text, 'props', '\n'.join(out))
    sd = os.path.join(HERE, 'seeded')
    out = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, 'meta.json')))
        f = lambda x: x.replace('|', '/').replace('\n', ' ')
        out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], f(m['what_it_breaks']), f(m['needs']), f(CAUGHT.get(d, 'not recorded'))))
    text = block(text, 'seeds', '\n'.join(out))
    open(path, 'w').write(text)


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != '_check'}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 lib/build.py asan tsan crash msan',
         'hooks': {'guard': 'none',
                   'enable': 'no hooks in /repo: lib/build.py compiles /repo/*.c with sanitizers and links harness/shim.c with ld --wrap',
                   'source_commits': []},
         'checks': [], 'not_applicable': NOT_APPLICABLE,
         'notes': 'See DESIGN.md. Genuine defects found are repaired in /repo ("fix:" commits) or listed in known_findings.txt.'}
    na = {x['property'] for x in NOT_APPLICABLE}
    for p in P:
        if p['id'] in na:
            continue
        m['checks'].append({'property': p['id'], 'quick_cmd': './check.sh %s --quick' % p['id'],
                            'thorough_cmd': './check.sh %s --thorough' % p['id'], **p['_check']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design()
    for x in P:
        assert len(x['title']) <= 80, x['id']


main()
