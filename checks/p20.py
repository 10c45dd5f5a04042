"""P20: what files say takes effect, however they are laid out."""
import os, struct
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one name (or address) written in - or deliberately not taken from - a generated configuration file, disabled list, '
        'hosts file, group file, list of a group, or substitution file, with random layout, and then asked for; the outcome (refused, the '
        'hosts address, which server was asked, the substituted address) is compared with the list the file was generated from. '
        'Non-trivial: distinct by (kind of file, indentation, comment, line end, preceding line, length class, outcome).')
ASSUMPTIONS = ['lines of lists shorter than the documented 512 (hosts: 320, groups: 384) characters count, comments excluded',
               'what a longer line means itself is not judged beyond that it names nothing', 'configuration keys in the documented letter case']


def scenarios(tier, seed):
    k = 25 if tier == 'thorough' else 6
    out = []
    for i in range(k):
        for kind in ('dis', 'hosts', 'group', 'glist', 'subst', 'conf', 'long') + ('options',) * 3:
            out.append(('%s-%d' % (kind, len(out)), run, {'kind': kind, 'rnd': i}))
    return out


class Pen:
    """Renders lines with every permitted layout."""

    def __init__(self, c, kind, limit):
        self.c, self.rng, self.kind, self.limit = c, c.rng, kind, limit
        self.out, self.eol = [], self.rng.choice(['\n', '\n', '\r\n', 'mix'])
        self.prev = 'first'
        self.n = 0

    def nl(self):
        return self.rng.choice(['\n', '\r\n']) if self.eol == 'mix' else self.eol

    def comment(self):
        rng = self.rng
        m = rng.choice(['#', ';'])
        body = rng.choice(['', ' note', ' note ; more', ' note # more', '#;#', ' 1.2.3.4 in.comment.test', ' in.comment.test', '\tx' * 9,
                           ' DisabledDomain in.comment.test'])
        if rng.random() < 0.15:
            n = rng.choice([self.limit, self.limit + 1, self.limit * 2, 126, 127, 128, 129, rng.randrange(1, 3 * self.limit)])
            body += ' ' + 'in.comment.test ' * (n // 16 + 1)
            body = body[:n]
        return m + body

    def add(self, text, padded=True):
        """One significant line."""
        rng = self.rng
        lead = rng.choice(['', '', ' ', '\t', '   \t']) if padded else ''
        room = self.limit - 2 - len(lead) - len(text)
        if rng.random() < 0.1 and padded and room > 0:
            lead += ' ' * room      # as long as a line may be
            room = 0
            tail, com = '', rng.random() < 0.3
        else:
            tail = rng.choice(['', '', ' ', '\t ', '  '])[:max(room, 0)]
            com = rng.random() < 0.3 and room > 4
        if com and room > 0:
            tail += rng.choice(['', ' '])[:room - len(tail)] + self.comment()
        elif room <= 0:
            tail, com = '', False
        e = self.nl()
        self.out.append(lead + text + tail + e)
        lc = 'full' if room == 0 else min((len(lead) + len(text) + len(tail)) * 4 // self.limit, 8)
        sig = (self.kind, bool(lead), bool(com), e, self.prev, lc)
        self.prev = ('c' if com else '') + ('l' if len(tail) > self.limit else '')
        return sig

    def noise(self, junk=()):
        rng = self.rng
        while rng.random() < 0.35:
            r = rng.random()
            if r < 0.3:
                self.out.append(rng.choice(['', ' ', '\t\t']) + self.nl())
                self.prev = 'blank'
            elif r < 0.6 or not junk:
                self.out.append(rng.choice(['', ' ', '\t']) + self.comment() + self.nl())
                self.prev = 'comment'
            else:
                self.out.append(rng.choice(junk)() + self.nl())
                self.prev = 'junk'

    def over(self, make):
        """make(n) -> an overlong line whose tail begins at n; what it names must have no effect."""
        L = self.limit
        n = self.rng.choice([L - 1, L - 1, L, L + 1, L - 1 + 127, L - 1 + 126, L + 127, L - 1 + 254, 2 * (L - 1), 2 * L])
        return make(n)

    def text(self):
        t = ''.join(self.out)
        if self.rng.random() < 0.4:
            t = t.rstrip('\r\n')
        return t


def caps(rng, s):
    return ''.join(x.upper() if rng.random() < 0.4 else x for x in s)


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    asked = {}

    def handler(k):
        def handle(srv, q, proto, reply):
            try:
                l, n, t, cl, e = wl.qinfo(q)
            except Exception:
                return
            asked.setdefault(n.lower(), set()).add(k)
            if n.startswith('negative.'):
                # counts as another server's answer if the negative one is not wanted
                reply(dns.response(q, [], rcode=3))
                asked[n.lower()] = {9}
                reply(dns.response(q, [dns.rr(dns.ptr(12), 1, 500, bytes([10, 9, 9, 1]))]), delay=0.05)
                return
            if n.startswith('ip-'):
                a = [int(x) for x in n.split('.')[0].split('-')[1:]]
            else:
                a = [10, 9, k, 1]
            if t == 1:
                reply(dns.response(q, [dns.rr(dns.ptr(12), 1, 500, bytes(a))]))
            elif t == 28:
                reply(dns.response(q, [dns.rr(dns.ptr(12), 28, 500, b'\x20\x01' + bytes(13) + bytes([k]))]))
            else:
                reply(wl.std_answer(q, k))
        return handle
    ups = [w.upstream('u%d' % i, handler(i), tcp=True) for i in range(3)]
    expect = {}         # (name, type) -> outcome, signature
    files = {}
    conf = ['UDPGroup %s * off' % ups[0].addr, 'EnableTCPtoUDP true', 'EnableUDPtoTCP true', 'UseCache false']
    uniq = [0]

    def fresh(dom='', long=0.1):
        uniq[0] += 1
        n = 'n%d%s.%s' % (uniq[0], rng.choice(['', '-x', 'abc']), dom or rng.choice(['test', 'a.test', 'example.net']))
        if rng.random() < long:
            n = '.'.join('l' * rng.randrange(1, 50) for _ in range(rng.randrange(1, 4))) + '.' + n
        return n[-118:].lstrip('.')     # (hosts take names up to 120 characters)

    def nothing(n, sig):
        expect[(n, 1)] = (('srv', 0), (kind, 'nothing') + tuple(sig))

    def overlong(pen, head='%s', tail='%s'):
        def mk(n):
            a, b = fresh('over.test', 0), fresh('over.test', 0)
            nothing(a, (n - pen.limit,))
            nothing(b, (n - pen.limit, 'tail'))
            h = head % a
            if rng.random() < 0.3:
                # a single long word, or the name at its end
                nothing('x.' + b, (n - pen.limit, 'word'))
                return h + 'x' * (n - len(h) - 2) + '.x.' + b
            return h + rng.choice([' ', '\t']) * (n - len(h)) + tail % b + rng.choice(['', ' ', ' #c', '   '])
        return lambda: pen.over(mk)

    def exact(pen):
        """An overlong line that ends right at the end of the buffer."""
        def mk():
            n = pen.limit - 1 + rng.choice([0, 127, 127, 254, 1])
            a = fresh('over.test', 0)
            nothing(a, (n - pen.limit, 'exact'))
            return a + 'y' * (n - len(a)) if rng.random() < 0.5 else a + ' ' * (n - len(a))
        return mk
    probe_more = []
    if kind == 'dis':
        for fi in range(2):
            p = Pen(c, kind, 512)
            junk = [overlong(p), overlong(p), exact(p)]
            for i in range(40):
                p.noise(junk)
                n = fresh()
                expect[(n, 1)] = (('refused',), p.add(caps(rng, n)))
            files['List%d' % fi] = p.text()
            conf.append('DisabledList %s' % rng.choice(['{DIR}/List%d', '"{DIR}/List%d"', '${CONFIGFILEDIRECTORY}/List%d']) % fi)
    elif kind == 'hosts':
        p = Pen(c, kind, 320)
        bad = [lambda: 'justone', lambda: '1.2.3.4', lambda: '@@', lambda: '<nolist>']
        junk = [overlong(p, '10.1.1.1 %s', ' 10.1.1.2 %s'), overlong(p, '10.1.1.1 %s', '10.1.1.2 %s'), exact(p)] + bad
        for i in range(60):
            p.noise(junk)
            n = fresh(long=0.03)
            ip = '10.2.%d.%d' % (rng.randrange(256), i + 1)
            expect[(n, 1)] = (('ip', ip), p.add(ip + rng.choice([' ', '\t', '  ', ' \t ']) + caps(rng, n)))
        p.eol = '\n'
        p.out.append(p.nl() + '9.8.7.6 loaded.marker.zz' + p.nl())
        files['Hosts'] = ''.join(p.out)
        conf += ['Hosts file://{DIR}/Hosts', 'HostsDownloadPath {DIR}/hdl', 'ModulesUpdateInterval -1']
    elif kind in ('group', 'glist'):
        for fi in (1, 2):
            p = Pen(c, kind, 384)
            junk = [overlong(p), exact(p)]
            keys = ['%s%s%s' % (caps(rng, 'protocol'), rng.choice([' ', '\t', '=', '  ']), rng.choice(['udp', 'UDP', 'tcp', 'TCP', '*'])),
                    '%s%s%s' % (caps(rng, 'server'), rng.choice([' ', '\t', '=', '  ']), ups[fi].addr)]
            if rng.random() < 0.6:
                keys.append('%s %s' % (caps(rng, 'parallel'), rng.choice(['on', 'OFF', 'off'])))
            if rng.random() < 0.4:
                keys.append('%s %s' % (caps(rng, 'proxy'), caps(rng, 'no')))
            doms = []
            q = Pen(c, kind, 384)
            jq = [overlong(q), exact(q)]
            for i in range(30):
                doms.append(fresh(long=0.05))
            mine, his = (doms, []) if kind == 'group' else (doms[:5], doms[5:])
            if his:
                keys.append('%s %s' % (caps(rng, 'list'), os.path.join(w.tmp, 'd/Lists/Of%d' % fi)))
            lines = keys + mine
            rng.shuffle(lines)
            for l in lines:
                p.noise(junk)
                s = p.add(caps(rng, l) if l in mine else l)
                if l in mine:
                    expect[(l, 1)] = (('srv', fi), s)
                    expect[('sub.' + l, 1)] = (('srv', fi), s + ('sub',))
            for l in his:
                q.noise(jq)
                s = q.add(caps(rng, l))
                expect[(l, 1)] = (('srv', fi), s)
            files['Group%d.txt' % fi] = p.text()
            files['Lists/Of%d' % fi] = q.text()
            conf.append('GroupFile %s/Group%d.txt' % (rng.choice(['{DIR}', '${CONFIGFILEDIRECTORY}']), fi))
    elif kind == 'subst':
        p = Pen(c, kind, 512)
        bad = [lambda: '10.3.3.3', lambda: 'one', lambda: '10.3.3.3#10.4.4.4']

        def longpair():
            n = rng.choice([510, 511, 512, 640, 1022])
            uniq[0] += 1
            a = '10.77.%d.%d' % (uniq[0] // 250, uniq[0] % 250)
            expect[('ip-%s.a.test' % a.replace('.', '-'), 1)] = (('ip', a), (kind, 'nothing', n))
            return a.ljust(n + 1) + ' 10.66.0.1' if rng.random() < 0.5 else 'z' * n + ' ' + a + ' 10.66.0.2'
        for i in range(60):
            p.noise(bad + [longpair, longpair])
            a, b = '10.%d.%d.%d' % (rng.randrange(20, 60), rng.randrange(256), i), '10.%d.%d.%d' % (rng.randrange(100, 200), rng.randrange(256), i)
            s = p.add(a + rng.choice([' ', '\t', '  ', ' \t ']) + b)
            expect[('ip-%s.test' % a.replace('.', '-'), 1)] = (('ip', b), s)
        files['Subst'] = p.text()
        conf.append('IPSubstitutingFile %s' % rng.choice(['{DIR}/Subst', '"{DIR}/Subst"']))
    else:
        p = Pen(c, kind, 2048)
        p.out.append('')
        lines = []

        def kv(k, v):
            return k + rng.choice([' ', '\t', '  ', '\t ', '=']) + v

        def want(n, o, t=1):
            return (n, t), o
        sep = lambda: rng.choice([',', ', ', ',\t', ' ,'])
        lines.append((kv('UDPGroup', '%s%s*%soff' % (ups[0].addr, rng.choice([' ', '\t', '  ']), rng.choice([' ', '\t', '  ']))), []))
        if kind != 'options':
            for i in range(12):
                k = rng.choice([1, 1, 2, 5])
                if kind == 'long' and rng.random() < 0.5:
                    k = rng.choice([60, 110, 150, 200, 350])
                ns = [fresh() for _ in range(k)]
                r = rng.random()
                if r < 0.4:
                    lines.append((kv('DisabledDomain', sep().join(caps(rng, n) for n in ns)), [want(n, ('refused',)) for n in ns]))
                elif r < 0.75:
                    fi = rng.choice([1, 2])
                    lines.append((kv('UDPGroup', '%s%s%s%s%s' % (ups[fi].addr, rng.choice([' ', '\t', '  ']), ','.join(caps(rng, n) for n in ns), rng.choice([' ', '\t', '   ']),
                                                                  rng.choice(['on', 'off']))), [want(n, ('srv', fi)) for n in ns]))
                else:
                    ips = ['10.5.%d.%d' % (rng.randrange(256), rng.randrange(256)) for _ in ns]
                    lines.append((kv('AppendHosts', sep().join(a + rng.choice([' ', '\t', '  ']) + caps(rng, n) for a, n in zip(ips, ns))),
                                  [want(n, ('ip', a)) for a, n in zip(ips, ns)]))
            for i in range(3):
                pairs = [('10.%d.%d.%d' % (rng.randrange(20, 60), rng.randrange(256), i * 60 + j), '10.%d.%d.%d' % (rng.randrange(100, 200), rng.randrange(256), j))
                         for j in range(rng.choice([1, 3]))]
                lines.append((kv('IPSubstituting', rng.choice([' ', ',', ', ', '\t']).join(a + rng.choice([' ', ',', '\t']) + b for a, b in pairs)),
                              [want('ip-%s.test' % a.replace('.', '-'), ('ip', b)) for a, b in pairs]))
        types = rng.sample([33, 35, 65, 99, 15], 3)
        lines.append((kv('DisabledType', sep().join(str(t) for t in types)), []))
        for t in (33, 35, 65, 99, 15):
            n = fresh('ty.test')
            expect[(n, t)] = (('refused',) if t in types else ('srv', None), (kind, 'type', t in types))
        # switches: the last one holds
        yes, no = ['true', 'TRUE', 'yes', 'Yes', '1', 'True'], ['false', 'FALSE', 'no', 'NO', '0', 'False']
        vals = [rng.random() < 0.5 for _ in range(rng.choice([1, 2, 3]))]
        block6 = ('BlockIpv6WhenIpv4Exists', vals)
        n = fresh('b6.test')
        lines.append((kv('AppendHosts', '10.8.8.8 ' + n), [want(n, ('ip', '10.8.8.8'))]))
        if vals[-1]:
            expect[(n, 28)] = (('none',), (kind, 'switch', len(vals)))
        else:
            expect[(n, 28)] = (('ip', '::ffff:10.8.8.8'), (kind, 'switch', len(vals)))
        ov = [rng.randrange(20, 400) for _ in range(rng.choice([1, 2]))]
        if kind == 'options':
            lines.append((kv('UseCache', rng.choice(yes)), []))
            lines.append((kv('MemoryCache', rng.choice(yes)), []))
            neg = rng.random() < 0.5
            lines.append((kv('BlockNegativeResponse', rng.choice(yes if neg else no)), []))
            n = 'negative.' + fresh('neg.test')
            expect[(n, 1)] = (('srv', 9 if neg else 0), (kind, 'negative', neg))
        rng.shuffle(lines)
        cut = sorted(rng.sample(range(len(lines) + 1), len(vals)) if len(lines) + 1 >= len(vals) else range(len(vals)))
        for i, (pos, v) in enumerate(zip(cut, vals)):
            lines.insert(pos + i, (kv(block6[0], rng.choice(yes if v else no)), []))
        if kind == 'options':
            cut = sorted(rng.sample(range(len(lines) + 1), len(ov)))
            for i, (pos, v) in enumerate(zip(cut, ov)):
                lines.insert(pos + i, (kv('OverrideTTL', str(v)), []))
            n = fresh('ttl.test')
            expect[(n, 1)] = (('srv', 0), (kind, 'ttl'))
            probe_more.append((n, ov[-1]))

        def unknown():
            k = rng.choice(['NoSuchOption', 'LogFileFolder', 'HostsDownloadPath', 'LogOn', 'CacheSize', 'TCPKeepAlive'])
            v = {'NoSuchOption': 'v', 'LogFileFolder': '/' + 'p' * 20, 'HostsDownloadPath': '/p', 'LogOn': 'false', 'CacheSize': '1048576', 'TCPKeepAlive': '2'}[k]
            n = rng.choice([2046, 2047, 2047, 2048, 2047 + 127, 2047 * 2, 2047 + 126, 4095])
            a = fresh('over.test', 0)
            nothing(a, ('opt', k, n - 2047))
            h = k + ' ' + v
            fill = ' ' if k in ('LogOn', 'CacheSize', 'TCPKeepAlive') or rng.random() < 0.5 else 'q'
            return h + fill * (n - len(h)) + 'DisabledDomain ' + a

        def plain():
            return rng.choice(['NoSuchOption 1', 'Word', 'UDPGroup', 'DisabledDomain', 'Hosts', 'CacheFile ', 'NoSuchOption=DisabledDomain x.over.test', '= 5', '\x01\x02 3'])
        junk = [plain] + [unknown, unknown] * (kind == 'long')
        for text, ws in lines:
            p.noise(junk)
            if len(text) >= p.limit - 2:
                p.out.append(rng.choice(['', ' ', '\t']) + text + rng.choice(['', ' ', ' #c' if len(text) < 1 else '']) + p.nl())
                s = (kind, 'long', len(text) * 2 // p.limit)
                p.prev = 'long'
            else:
                s = p.add(text)
            for k, o in ws:
                expect[k] = (o, s)
        conf = [p.text()]
        for a in range(3):
            expect[(fresh('free.test'), 1)] = (('srv', 0), (kind, 'free'))
    conf_dir = w.tmp + '/d'
    os.makedirs(os.path.join(conf_dir, 'Lists'), exist_ok=True)
    expect[('in.comment.test', 1)] = (('srv', 0), (kind, 'comment'))
    d = c.start(w, (['LogOn false'] + conf) if kind not in ('conf', 'long', 'options') else conf, files=files, keep=conf_dir)
    if kind == 'hosts':
        mk = w.client(d)
        for _ in range(200):
            del mk.rx[:]
            mk.send(dns.query(5, 'loaded.marker.zz', 1))
            if w.run(lambda: mk.rx, 2) and [x.value for x in dns.parse(mk.rx[-1][1]).an] == ['9.8.7.6']:
                break
            w.run(None, 0.05)
        else:
            c.bad('hosts-not-loaded', 'the last line of the hosts file has no effect')
            return
    cl = w.client(d)
    todo = list(expect)
    rng.shuffle(todo)
    got, ttl = {}, {}
    for i in range(0, len(todo), 25):
        part = todo[i:i + 25]
        for tries in range(3):
            del cl.rx[:]
            ids = {}
            for n, t in part:
                if (n, t) in got:
                    continue
                qid = len(ids) + 1
                ids[qid] = (n, t)
                cl.send(dns.query(qid, n, t))
            w.run(lambda: len(cl.rx) >= len(ids), 2)
            for _, m, _ in cl.rx:
                r = dns.parse(m)
                if r.id in ids:
                    got[ids[r.id]] = r
            if all(x in got for x in part):
                break
    for (n, t), (o, sig) in expect.items():
        c.ev()
        r = got.get((n, t))
        if r is None:
            c.live('unanswered', 'no answer for %s type %d' % (n, t))
            return
        srv = asked.get(n, set())
        if not srv and r.rcode == 5:
            res = ('refused',)
        elif not srv and not r.an:
            res = ('none',)
        elif not srv or n.startswith('ip-'):
            res = ('ip', r.an[0].value if r.an else None)
        elif srv == {9}:
            res = ('srv', 9 if r.an else 0)
        else:
            res = ('srv', max(srv))
            if len(srv) > 1:
                res = ('srvs', sorted(srv))
        if o == ('srv', None):
            o = ('srv', res[1]) if res[0] == 'srv' else ('srv', 'any')
        if o == ('refused',) and res == ('none',):
            res = o
        if o[0] == 'ip' and res[0] == 'ip' and o[1].startswith('::'):
            res = o if res[1] in (o[1], '::ffff:a08:808') else res
        c.count('outcome_' + o[0])
        c.seen(*sig, o[0])
        if res != o:
            c.bad('not-as-written', '%s type %d: written so that %r, but %r (%r)' % (n, t, o, res, sig))
            if len(c.violations) > 3:
                return
    for n, want_ttl in probe_more:
        del cl.rx[:]
        cl.send(dns.query(9, n, 1))
        w.run(lambda: cl.rx, 3)
        if not cl.rx:
            c.live('unanswered', 'no answer')
            return
        r = dns.parse(cl.rx[-1][1])
        if not r.an or not want_ttl - 20 <= r.an[0].ttl <= want_ttl:
            c.bad('option', 'OverrideTTL %d, but the cached answer has TTL %r' % (want_ttl, [x.ttl for x in r.an]))
        if 'keep' in asked.get(n, ()):
            c.bad('option', 'asked again')
    c.check_daemons()
