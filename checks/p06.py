"""P06: every forwarded query goes to the server group its name selects."""
import fnmatch
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one query through the real daemon under a generated set of server groups (UDP and TCP, in the configuration '
        'or in group files, parallel or not) whose domain rules overlap. The servers that received it are compared with the '
        'group the documented precedence selects, and the client must get the answer of that group. Non-trivial: distinct by '
        '(configuration kind, rule class that decided, depth of the matched rule, transport, parallel).')
ASSUMPTIONS = ['a query that no fitting rule matches may go to any group (documented as random)',
               'when several wildcard rules other than "*" match, any of them may be taken (documented as random)']

LAB = ['a', 'b', 'co', 'cdn', 'img', 'x1', 'mail']
TLD = ['test', 'example.com', 'net', 'co.uk', 'org']


def scenarios(tier, seed):
    k = 10 if tier == 'thorough' else 2
    out = []
    for i in range(k):
        for kind in ('inline', 'files', 'nested', 'wild', 'mixed', 'u2t', 't2u', 'big', 'nostar', 'anyproto'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


def rnd_name(rng, depth=None):
    n = [rng.choice(LAB) for _ in range(rng.randrange(0, 4) if depth is None else depth)]
    return '.'.join(n + [rng.choice(TLD)])


def candidates(groups, name, proto, u2t, t2u):
    """Groups the documented rules allow, with the class of the deciding rule; (None, 'none') if no rule fits."""
    def fits(g):
        if g['proto'] == '*':
            return True
        if proto == 'udp':
            return g['proto'] == 'udp' or u2t
        return g['proto'] == 'tcp' or t2u
    parts = name.split('.')
    for i in range(len(parts)):
        suf = '.'.join(parts[i:])
        hit = [g for g in groups if fits(g) and suf in g['plain']]
        if hit:
            return [hit[-1]], 'plain%d' % i
    hit = [g for g in groups if fits(g) and any(fnmatch.fnmatchcase(name, p) for p in g['wild'] if p != '*')]
    if hit:
        return hit, 'wild'
    hit = [g for g in groups if fits(g) and '*' in g['wild']]
    if hit:
        return hit, 'star'
    return None, 'none'


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    up_seen = {}

    def handle(srv, q, proto, reply):
        try:
            n = wl.qinfo(q)[1]
        except Exception:
            return
        if not n.endswith('ready.probe'):
            up_seen.setdefault(q, []).append((srv.name, proto))
        reply(wl.std_answer(q, salt=srv.group))

    groups = []
    tcpish = kind in ('mixed', 'u2t', 't2u', 'anyproto')
    anyp = kind == 'anyproto'
    ng = rng.randrange(4, 7)
    for g in range(ng):
        proto = 'udp'
        if tcpish and not anyp and (g % 2 or kind == 'u2t'):
            proto = 'tcp'
        if kind == 't2u':
            proto = 'udp' if g % 3 else 'tcp'
        G = {'i': g, 'proto': proto, 'plain': set(), 'wild': [], 'par': rng.random() < 0.4, 'ups': []}
        n = rng.choice([1, 2, 3])
        for k in range(n):
            u = w.upstream('g%d.%d' % (g, k), handle, udp=proto == 'udp' or anyp, tcp=proto == 'tcp' or anyp)
            u.group = g
            G['ups'].append(u)
        groups.append(G)
    if anyp:
        for G in groups:
            G['proto'] = '*'
    # rules
    base = [rnd_name(rng) for _ in range(10)]
    for i, G in enumerate(groups):
        rules = []
        for _ in range(rng.randrange(2, 6)):
            r = rng.random()
            if kind == 'nested' or r < 0.5:
                b = rng.choice(base)
                rules.append('.'.join([rng.choice(LAB) for _ in range(rng.randrange(0, 3))] + [b]))
            elif kind in ('wild', 'mixed', 'files') or r < 0.8:
                b = rng.choice(base)
                rules.append(rng.choice(['*.' + b, 'img?.' + b, '*cdn*', 'x[0-9].' + b, '*.%s.*' % rng.choice(LAB), b[:-1] + '?']))
            else:
                rules.append(rnd_name(rng))
        if (i == 0 and kind != 'nostar') or (rng.random() < 0.3 and kind in ('wild', 'mixed', 'u2t', 't2u')):
            rules.append('*')
        for x in rules:
            (G['wild'].append(x) if any(ch in x for ch in '*?[') else G['plain'].add(x))
    if tcpish:
        # both transports reach something
        for pr in ('udp', 'tcp'):
            l = [G for G in groups if G['proto'] == pr]
            if l and not any('*' in G['wild'] for G in l):
                l[0]['wild'].append('*')
    big = []
    if kind == 'big':
        # long domain lists: thousands of rules spread over the groups
        for i in range(1500 if not c.thorough() else 12000):
            G = rng.choice(groups)
            d = 'd%d.%s' % (i, rng.choice(['big.test', 'huge.example', 'com']))
            G['plain'].add(d)
            big.append(d)
    conf = ['UseCache false', 'LogOn false', 'EnableUDPtoTCP %s' % ('true' if kind == 'u2t' else 'false'),
            'EnableTCPtoUDP %s' % ('true' if kind == 't2u' else 'false')]
    files = {}
    probe_udp = [G for G in groups if G['proto'] == 'udp']
    for i, G in enumerate(groups):
        rules = sorted(G['plain']) + G['wild']
        rng.shuffle(rules)
        shown = [(''.join(x.upper() if rng.random() < 0.3 else x for x in r) if '[' not in r else r) for r in rules]
        shown = [('.' + r if rng.random() < 0.1 and r[0] not in '*?' else r) for r in shown]
        addr = ','.join(u.addr for u in G['ups'])
        par = 'on' if G['par'] else 'off'
        if rng.random() < 0.5:
            par = par.upper()
        infile = (kind == 'files' and i % 2 == 0) or kind in ('big', 'anyproto')
        if infile:
            body = ['# group %d' % i, 'PROTOCOL %s' % rng.choice([G['proto'], G['proto'].upper()]), 'SERVER ' + addr,
                    'PARALLEL ' + par, '', '; comment']
            k = len(shown) // 2
            if rng.random() < 0.7:
                body.append('LIST {DIR}/list%d' % i)
                files['list%d' % i] = '\n'.join(shown[:k]) + rng.choice(['\n', ''])
            else:
                k = 0
            body += [r + rng.choice(['', '  # note', '\r']) for r in shown[k:]]
            files['group%d' % i] = '\n'.join(body) + '\n'
            conf.append('GroupFile {DIR}/group%d' % i)
        elif G['proto'] == 'udp':
            conf.append('UDPGroup %s %s %s' % (addr, ','.join(shown), par))
        else:
            conf.append('TCPGroup %s %s %s no' % (addr, ','.join(shown), par))
    # the general form of the same options
    for old, new in (('UDPGroup', 'ServerGroup UDP'), ('TCPGroup', 'ServerGroup TCP'), ('GroupFile', 'ServerGroup FILE')):
        conf = [x.replace(old, new, 1) if x.startswith(old + ' ') and rng.random() < 0.2 else x for x in conf]
    dirp = w.tmp + '/d'
    import os
    os.makedirs(dirp)
    files = {k: v.replace('{DIR}', dirp) for k, v in files.items()}
    d = c.start(w, conf, keep=dirp, files=files)
    u2t, t2u = kind == 'u2t', kind == 't2u'
    uc = [w.client(d) for _ in range(3)]
    tc = [w.tclient(d) for _ in range(3)] if tcpish else []
    total = (160 if c.thorough() else 60) if tcpish else (4000 if c.thorough() else 1200)
    if kind == 'mixed':
        total *= 2
    pend = {}

    def on(cl, m):
        e = pend.pop((cl, m[:2]), None)
        if e is None:
            return
        try:
            r = dns.parse(m)
        except dns.Bad as x:
            c.bad('malformed-reply', '%s: %s' % (x, m.hex()))
            return
        got = [x.value for x in r.an]
        ok = [dns._value(wl.rdata_for(e['n'], e['t'], g), 0, 16 if e['t'] == 28 else 4, e['t'])
              for g in ([G['i'] for G in e['cand']] if e['cand'] else range(ng))]
        if len(got) != 1 or got[0] not in ok:
            c.bad('wrong-group-answer', 'query %s over %s decided by rule class %s: the client got %r, the selected group answers %r' % (
                e['n'], e['proto'], e['why'], got, ok))
    for cl in uc + tc:
        cl.cb = on
    sent = []
    rules_plain = sorted(set(x for G in groups for x in G['plain'] if x not in big))
    for i in range(total):
        r = rng.random()
        if kind == 'big' and r < 0.6:
            n = rng.choice(big)
            if rng.random() < 0.3:
                n = 'sub.' + n
        elif r < 0.5:
            n = rng.choice(rules_plain) if rules_plain else rnd_name(rng)
            r2 = rng.random()
            if r2 < 0.3:
                n = rng.choice(LAB) + '.' + n
            elif r2 < 0.45:
                n = rng.choice(['x', 'a', '-']) + n          # shares the text, not the label boundary
            elif r2 < 0.55:
                n = n + '.' + rng.choice(['test', 'com'])
            elif r2 < 0.65 and n.count('.'):
                n = n.split('.', 1)[1]
        elif r < 0.7:
            n = rng.choice(['img%s.' % rng.choice(['1', 'a', 'b', '', '22']), 'x%d.' % rng.randrange(10), 'x.', 'foo.', 'q.cdn.', 'acdnb.']) + rng.choice(base)
            if rng.random() < 0.2:
                n = n[:-1] + rng.choice('abx')
        else:
            n = rnd_name(rng)
        if rng.random() < 0.03:
            n = ''                  # the root, after whatever was asked before
        t = rng.choice([1, 28])
        tcp = bool(tc) and rng.random() < (0.5 if kind != 'u2t' else 0.3)
        cl = rng.choice(tc if tcp else uc)
        nm = ''.join(x.upper() if rng.random() < 0.3 else x for x in n) if rng.random() < 0.4 else n
        q = dns.query(i & 0xffff, nm, t)
        cand, why = candidates(groups, n, 'tcp' if tcp else 'udp', u2t, t2u)
        e = {'n': n, 't': t, 'cand': cand, 'why': why, 'q': q, 'proto': 'tcp' if tcp else 'udp'}
        pend[(cl, q[:2])] = e
        sent.append(e)
        cl.send(q)
        c.ev()
        c.seen(kind, why, tcp, bool(cand and cand[0]['par']), n.count('.'))
        if i < 2:
            c.sample({'name': nm, 'rule': why, 'groups': [G['i'] for G in cand] if cand else None})
        lim = 8 if tcpish else 20
        if len(pend) >= lim:
            w.run(lambda: len(pend) < lim // 2, 12)
        if c.violations:
            return
    w.run(lambda: not pend, 12)
    w.run(None, 0.15)
    for e in sent:
        got = up_seen.get(e['q'], [])
        gs = sorted(set(int(x[0][1:].split('.')[0]) for x in got))
        c.count('queries_' + e['why'][:5])
        if not got:
            continue
        if len(gs) > 1:
            c.bad('two-groups', 'query %s was sent to groups %r' % (e['n'], gs))
            return
        G = groups[gs[0]]
        if e['cand'] is not None and G not in e['cand']:
            c.bad('wrong-group', 'query %s over %s (rule class %s) was sent to group %d with rules %r, selected: %r' % (
                e['n'], e['proto'], e['why'], gs[0], sorted(G['plain'])[:20] + G['wild'],
                [(x['i'], sorted(x['plain'])[:20], x['wild']) for x in e['cand']]))
            return
        srv = sorted(x[0] for x in got)
        if G['par'] and len(G['ups']) > 1:
            c.count('parallel_fanout')
            if (G['proto'] == 'udp' or e['proto'] == 'udp' and anyp) and srv != sorted(u.name for u in G['ups']):
                c.bad('parallel-servers', 'query %s of a parallel group reached %r of %r' % (e['n'], srv, [u.name for u in G['ups']]))
                return
        elif not G['par']:
            if len(set(srv)) != 1 or (G['proto'] == 'udp' and len(srv) != 1):
                c.bad('one-server', 'query %s of a non-parallel group reached %r' % (e['n'], srv))
                return
    c.count('queries', len(sent))
    if pend:
        e = next(iter(pend.values()))
        c.live('unanswered', '%d of %d queries unanswered, e.g. %s over %s (rule class %s), seen upstream: %r' % (
            len(pend), total, e['n'], e['proto'], e['why'], up_seen.get(e['q'])))
