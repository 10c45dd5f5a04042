"""P07: disabled types and domains are never resolved; everything else is unaffected."""
import fnmatch, os
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one query under a generated set of disabled types, domains, patterns and list files, with cache and hosts '
        'on or off. A disabled query must get one empty response and never show up at a server; any other query must be '
        'answered with the records of the server. Non-trivial: distinct by (configuration, rule class that hit, near miss '
        'class, type class, transport).')
ASSUMPTIONS = ['names shorter than 200 bytes']

LAB = ['a', 'ads', 'co', 'track', 'x-1', 'mail', 'z']
TLD = ['test', 'example.com', 'net', 'co.uk']


def scenarios(tier, seed):
    k = 12 if tier == 'thorough' else 4
    out = []
    for i in range(k):
        for kind in ('types', 'domains', 'wild', 'files', 'all-cache', 'all-hosts', 'big', 'reload', 'tcp'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


def rnd_name(rng):
    if rng.random() < 0.06:
        # long ones: up to the limits of labels and names
        l = [rng.choice('abcxyz') * rng.choice([20, 40, 58]) for _ in range(rng.randrange(1, 4))]
        while sum(len(x) + 1 for x in l) > 180:
            l.pop()
        return '.'.join(l + [rng.choice(TLD)])
    return '.'.join([rng.choice(LAB) for _ in range(rng.randrange(1, 4))] + [rng.choice(TLD)])


def case(rng, s, p=0.3):
    return ''.join(x.upper() if rng.random() < p else x for x in s)


class Rules:
    def __init__(self):
        self.types, self.plain, self.wild = set(), set(), []

    def add(self, r):
        (self.wild.append(r) if any(ch in r for ch in '*?[') else self.plain.add(r))

    def hit(self, n, t):
        if t in self.types:
            return 'type'
        parts = n.split('.')
        for i in range(len(parts)):
            if '.'.join(parts[i:]) in self.plain:
                return 'plain%d' % i
        if any(fnmatch.fnmatchcase(n, p) for p in self.wild):
            return 'wild'
        return None


def rnd_rule(rng, wild):
    if wild:
        b = rnd_name(rng)
        return rng.choice(['*.' + b, '*track*', 'ads?.' + b, 'z.*.' + b.split('.')[-1], b[:-1] + '?', 'ads[0-9].' + b])
    return rnd_name(rng)


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    R = Rules()
    up = []

    def handle(srv, q, proto, reply):
        try:
            l, n, t, k, e = wl.qinfo(q)
        except Exception:
            return
        up.append((n, t))
        reply(wl.std_answer(q))
    u = w.upstream('u', handle, udp=True, tcp=True)
    conf = ['LogOn %s' % rng.choice(['true', 'false']), 'UDPGroup %s * off' % u.addr, 'EnableTCPtoUDP true',
            'UseCache %s' % ('true' if kind == 'all-cache' else 'false'), 'MemoryCache true']
    files = {}
    if kind in ('types', 'all-cache', 'all-hosts', 'tcp'):
        ts = rng.sample([28, 16, 255, 12, 65, 99, 32769, 33, 2, 257, 65535], 5)
        R.types |= set(ts)
        conf.append('DisabledType ' + ','.join(map(str, ts[:3])))
        conf.append('DisabledType ' + ','.join(map(str, ts[3:])))
    if kind in ('domains', 'wild', 'all-cache', 'all-hosts', 'tcp'):
        rs = [rnd_rule(rng, kind == 'wild' or rng.random() < 0.3) for _ in range(12)]
        for r in rs:
            R.add(r)
        show = [case(rng, r) if '[' not in r else r for r in rs]
        show = [('.' + r if rng.random() < 0.15 and r[0] not in '*?' else r) for r in show]
        conf.append('DisabledDomain ' + rng.choice([',', ', ']).join(show[:5]))
        for r in show[5:]:
            conf.append('DisabledDomain ' + r)
    if kind in ('files', 'all-cache', 'big', 'reload'):
        for f in range(2):
            n = (20000 if c.thorough() else 3000) if kind == 'big' else 10
            rs = [rnd_rule(rng, kind != 'big' and rng.random() < 0.3) for _ in range(10)]
            if kind == 'big':
                rs += ['h%d.%s' % (i * 2 + f, rng.choice(['big.test', 'org'])) for i in range(n)]
            for r in rs:
                R.add(r)
            txt = []
            for r in rs:
                x = case(rng, r) if '[' not in r else r
                txt.append(rng.choice(['', '  ', '\t']) + x + rng.choice(['', ' ', ' # why', '\r', ' ; no']))
                if rng.random() < 0.1:
                    txt.append(rng.choice(['', '# comment', '   ']))
            if rng.random() < 0.5:
                # a long comment must not hide what follows
                txt.insert(rng.randrange(len(txt)), '# ' + 'blah ' * rng.choice([20, 90]))
            files['dis%d' % f] = '\n'.join(txt) + rng.choice(['', '\n'])
            if rng.random() < 0.5:
                conf.append('DisabledList {DIR}/no-such-file%d' % f)
            conf.append('DisabledList {DIR}/dis%d' % f)
    hosts = {}
    if kind == 'all-hosts':
        for i in range(6):
            n = rnd_name(rng)
            hosts[n] = '10.0.0.%d' % (i + 1)
        for n, ip in hosts.items():
            conf.append('AppendHosts %s %s' % (ip, n))
        # an alias into a disabled domain
        dd = sorted(R.plain)
        for i, x in enumerate(dd[:2]):
            conf.append('AppendHosts %s alias%d.ok.zz' % (x, i))
    if kind == 'reload':
        files['h'] = '1.1.1.1 hosts.only.zz\n'
        conf += ['Hosts file://{DIR}/h', 'HostsDownloadPath {DIR}/hdl', 'ModulesUpdateInterval 60', 'ReloadDisabledList true']
    d = c.start(w, conf, files=files)
    cls = [w.client(d) for _ in range(3)] + ([w.tclient(d) for _ in range(2)] if kind in ('tcp', 'all-cache') else [])
    pend = {}
    state = {'rules': R}

    def on(cl, m):
        e = pend.pop((cl, m[:2]), None)
        if e is None:
            c.bad('extra-reply', 'a reply without an outstanding query: %s' % m.hex())
            return
        try:
            r = dns.parse(m)
        except dns.Bad as x:
            c.bad('malformed-reply', '%s: %s' % (x, m.hex()))
            return
        if not r.qr or [(x[0], x[1]) for x in r.questions] != [(e['n'], e['t'])]:
            c.bad('wrong-question', 'asked %s type %d, got %s' % (e['n'], e['t'], m.hex()))
            return
        if e['hit']:
            if r.an or r.ns:
                c.bad('disabled-answered', '%s type %d is disabled (%s) but was answered with %r' % (e['n'], e['t'], e['hit'], r.an + r.ns))
        elif e['n'] in hosts and e['t'] in (1, 28):
            pass
        elif e['n'].startswith('alias') and e['n'].endswith('.ok.zz'):
            if any(x.type != 5 for x in r.an):
                c.bad('disabled-answered', 'alias %s of a disabled name was answered with %r' % (e['n'], r.an))
        else:
            rd = wl.rdata_for(e['n'], e['t'])
            want = [dns._value(rd, 0, len(rd), e['t'])] if e['t'] not in (255, 0) else None
            got = [x.value for x in r.an]
            if want is not None and got != want:
                c.bad('other-affected', '%s type %d is not disabled; the server says %r, the client got %r (rcode %d)' % (
                    e['n'], e['t'], want, got, r.rcode))
    for cl in cls:
        cl.cb = on
    asked = {}

    def ask(i, R, total):
        rp = sorted(x for x in R.plain if not x.startswith('h') or kind != 'big')
        r = rng.random()
        if kind == 'big' and r < 0.4:
            n = 'h%d.%s' % (rng.randrange(0, 7000), rng.choice(['big.test', 'org']))
            if rng.random() < 0.3:
                n = 'w.' + n
        elif r < 0.5 and rp:
            n = rng.choice(rp)
            r2 = rng.random()
            if r2 < 0.3:
                n = rng.choice(LAB) + '.' + n
            elif r2 < 0.4:
                n = 'q' + n
            elif r2 < 0.5:
                n = n + '.' + rng.choice(['test', 'com'])
            elif r2 < 0.6:
                n = n.split('.', 1)[1]
            elif r2 < 0.65:
                n = 'a.b.c.d.' + n
        elif r < 0.65:
            n = rng.choice(['ads%d.' % rng.randrange(10), 'adsx.', 'z.', 'xtracky.']) + rnd_name(rng)
        elif hosts and r < 0.75:
            n = rng.choice(sorted(hosts) + ['alias0.ok.zz', 'alias1.ok.zz'])
        else:
            n = rnd_name(rng)
        if rng.random() < 0.03:
            n = ''                  # the root, after whatever was asked before
        t = rng.choice([1, 1, 28, 16, 15, 12, 65, 99, 33, 2, 257, 255])
        if R.types and rng.random() < 0.3:
            t = rng.choice(sorted(R.types))
            if rng.random() < 0.3:
                t = max(1, min(65535, t + rng.choice([-1, 1, 256])))
        if t == 41:
            t = 1
        if n.startswith('alias'):
            t = rng.choice([1, 28])
        h = R.hit(n, t)
        cl = rng.choice(cls)
        if (cl, dns.struct.pack('!H', i & 0xffff)) in pend:
            return
        q = dns.query(i & 0xffff, case(rng, n) if rng.random() < 0.4 else n, t, edns=rng.choice([None, 1232]))
        pend[(cl, q[:2])] = {'n': n, 't': t, 'hit': h}
        asked[(n, t)] = asked.get((n, t), 0) + 1
        c.ev()
        c.count('disabled' if h else 'allowed')
        c.seen(kind, h, t if h == 'type' else 0, cl.__class__.__name__, n.count('.'))
        if i < 3:
            c.sample({'name': n, 'type': t, 'rule': h})
        cl.send(q)

    total = 4000 if c.thorough() else 700
    for i in range(total):
        ask(i, R, total)
        if len(pend) > 16:
            w.run(lambda: len(pend) < 8, 10)
        if c.violations:
            return
    w.run(lambda: not pend, 10)

    def upstream_check(R, what):
        for n, t in up:
            h = R.hit(n, t)
            if h and not n.endswith('ready.probe'):
                c.bad('disabled-forwarded', '%s type %d is disabled (%s) but was forwarded to the server (%s)' % (n, t, h, what))
                return
    upstream_check(R, 'asked by a client' if kind != 'all-hosts' else 'client or alias')
    if pend and not c.violations:
        e = next(iter(pend.values()))
        c.live('unanswered', '%d queries unanswered, e.g. %r' % (len(pend), e))
        return
    if kind == 'reload' and not c.violations:
        # a new list replaces the old one, under traffic
        R2 = Rules()
        del up[:]
        rs = [rnd_rule(rng, rng.random() < 0.3) for _ in range(10)] + sorted(R.plain)[:3]
        for r in rs:
            R2.add(r)
        R2.add('marker.zz')
        d.write('dis0', '\n'.join(case(rng, r) if '[' not in r else r for r in rs) + '\nmarker.zz\n')
        d.write('dis1', '')
        d.advance(70)
        mk = w.client(d)
        ok = False
        for _ in range(200):
            d.advance(1)
            del mk.rx[:]
            mk.send(dns.query(7, 'marker.zz', 1))
            if w.run(lambda: mk.rx, 3) and not dns.parse(mk.rx[-1][1]).an:
                ok = True
                break
            w.run(None, 0.05)
        c.count('reloads')
        if not ok:
            c.live('not-reloaded', 'the disabled list was not reloaded after its interval')
            return
        w.run(None, 0.05)
        del up[:]
        for i in range(total // 2):
            ask(i, R2, total)
            if len(pend) > 16:
                w.run(lambda: len(pend) < 8, 10)
            if c.violations:
                return
        w.run(lambda: not pend, 10)
        upstream_check(R2, 'after reload')
        if pend:
            c.live('unanswered', '%d queries unanswered after reload' % len(pend))
