"""P08: names in hosts are answered from hosts, everything else is forwarded."""
import fnmatch, ipaddress, os
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one query under generated hosts items (inline and in a hosts file; IPv4, IPv6, patterns, exclusions, any '
        'letter case and spacing). An independent model gives the set of allowed outcomes: the one address record, the empty '
        'response, or forwarding; the client packet and the server log are compared with it. Non-trivial: distinct by '
        '(configuration, outcome class, deciding list, exact or pattern, type, transport).')
ASSUMPTIONS = ['hosts names up to 120 characters', 'when several patterns of one list match and no exact item does, any of them may decide',
               'when a name has several addresses of one family, any one of them may be given']

LAB = ['a', 'www', 'cdn', 'img', 'x-1', 'mail']
TLD = ['test', 'example.com', 'net']


def scenarios(tier, seed):
    k = 10 if tier == 'thorough' else 3
    out = []
    for i in range(k):
        for kind in ('inline', 'file', 'both', 'block6', 'wild', 'big', 'cache', 'tcp'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


def rnd_name(rng):
    return '.'.join([rng.choice(LAB) for _ in range(rng.randrange(1, 4))] + [rng.choice(TLD)])


def case(rng, s, p=0.3):
    return ''.join(x.upper() if rng.random() < p else x for x in s)


def rnd_ip6(rng):
    """(text, canonical)"""
    r = rng.random()
    if r < 0.1:
        return '::', '::'
    if r < 0.2:
        return '::1', '::1'
    groups = [rng.choice([0, 0, 1, 0xab, rng.randrange(65536), 0xffff]) for _ in range(8)]
    if groups[0] == 0:
        groups[0] = 0x2001
    a = ipaddress.IPv6Address(b''.join(g.to_bytes(2, 'big') for g in groups))
    txt = rng.choice([str(a), a.exploded, ':'.join('%x' % g for g in groups)])
    if '::' in str(a) and str(a).endswith('::') and txt == str(a):
        pass
    return case(rng, txt), str(a)


class Hosts:
    """One list: key -> nodes; node = (kind, value)."""

    def __init__(self):
        self.exact, self.wild = {}, {}

    def add(self, name, kind, val):
        t = self.wild if any(ch in name for ch in '*?[') else self.exact
        t.setdefault(name, []).append((kind, val))

    def choices(self, n):
        """Possible deciding node lists."""
        if n in self.exact:
            out = [self.exact[n]]
            # a pattern exclusion competing with an exact item: documented one way, either is accepted
            for p, v in self.wild.items():
                if fnmatch.fnmatchcase(n, p) and any(k == 'ex' for k, _ in v) and not any(k == 'ex' for k, _ in self.exact[n]):
                    out.append(v)
            return out
        out = [v for p, v in self.wild.items() if fnmatch.fnmatchcase(n, p)]
        return out or [[]]


def outcomes(lists, n, t, block6):
    """Allowed outcomes: ('ip', value) / ('empty',) / ('fwd',)"""
    out = set()

    def combos(i, acc):
        if i == len(lists):
            yield acc
            return
        for ch in lists[i].choices(n):
            yield from combos(i + 1, acc + [ch])
    for chosen in combos(0, []):
        if t == 28 and block6 and any(k == 'a' for ch in chosen for k, _ in ch):
            out.add(('empty',))
            continue
        if any(k == 'ex' for ch in chosen for k, _ in ch):
            out.add(('fwd',))
            continue
        for ch in chosen:
            v4 = [v for k, v in ch if k == 'a']
            v6 = [v for k, v in ch if k == 'aaaa']
            if t == 1 and v4:
                out |= {('ip', v) for v in v4}
                break
            if t == 28 and v6:
                out |= {('ip', v) for v in v6}
                break
            if t == 28 and v4:
                out |= {('ip', str(ipaddress.IPv6Address('::ffff:' + v))) for v in v4}
                break
        else:
            out.add(('fwd',))
    return out


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    seen = {}

    def handle(srv, q, proto, reply):
        try:
            l, n, t, k, e = wl.qinfo(q)
        except Exception:
            return
        seen[(n, t)] = seen.get((n, t), 0) + 1
        reply(wl.std_answer(q))
    u = w.upstream('u', handle, udp=True, tcp=True)
    block6 = kind == 'block6'
    conf = ['LogOn false', 'UDPGroup %s * off' % u.addr, 'EnableTCPtoUDP true', 'MemoryCache true',
            'UseCache %s' % ('true' if kind == 'cache' else 'false'),
            'BlockIpv6WhenIpv4Exists %s' % ('true' if block6 else 'false')]
    lists, files = [], {}

    def gen(n, wildp):
        L, lines = Hosts(), []
        pool = [rnd_name(rng) for _ in range(max(4, n // 2))]
        for i in range(n):
            nm = rng.choice(pool)
            if rng.random() < wildp:
                nm = rng.choice(['*.' + nm, 'img?.' + nm, nm.split('.')[0] + '.*', '*cdn*.net', 'w[a-z]w.' + nm])
            r = rng.random()
            if r < 0.55:
                ip = '%d.%d.%d.%d' % (rng.randrange(1, 224), rng.randrange(256), rng.randrange(256), rng.randrange(256))
                if rng.random() < 0.1:
                    ip = rng.choice(['0.0.0.0', '127.0.0.1', '255.255.255.255'])
                L.add(nm, 'a', ip)
                txt = ip
            elif r < 0.85:
                txt, canon = rnd_ip6(rng)
                L.add(nm, 'aaaa', canon)
            else:
                L.add(nm, 'ex', None)
                txt = '@@'
            lines.append((txt, case(rng, nm) if '[' not in nm else nm))
        return L, lines
    if kind != 'file':
        L, lines = gen(14, 0.35 if kind != 'wild' else 0.7)
        lists.append(L)
        i = 0
        while i < len(lines):
            k = rng.choice([1, 1, 3])
            conf.append('AppendHosts ' + ','.join('%s%s%s' % (a, rng.choice([' ', '  ', '\t']), b) for a, b in lines[i:i + k]))
            i += k
    if kind in ('file', 'both', 'block6', 'big', 'cache'):
        n = (8000 if c.thorough() else 1500) if kind == 'big' else 16
        L, lines = gen(n if kind != 'big' else 40, 0.3)
        if kind == 'big':
            for i in range(n):
                ip = '10.%d.%d.%d' % (rng.randrange(4), rng.randrange(8), rng.randrange(8))
                L.add('h%d.big.test' % i, 'a', ip)
                lines.append((ip, 'h%d.big.test' % i))
        lists.append(L)
        txt = []
        for a, b in lines:
            txt.append(rng.choice(['', ' ', '\t']) + a + rng.choice([' ', '\t', '   ']) + b + rng.choice(['', ' ', ' # c', '\r', ' ;c', ' extra']))
            if rng.random() < 0.1:
                txt.append(rng.choice(['', '#' + 'x' * rng.choice([5, 400]), '   ', 'justone', '1.2.3.4 ' + 'y' * 400]))
        files['h'] = '\n'.join(txt) + rng.choice(['', '\n'])
        conf += ['Hosts file://{DIR}/h', 'HostsDownloadPath {DIR}/hdl', 'ModulesUpdateInterval -1']
    # a list the file must have replaced before the queries start
    marker = None
    if files:
        files['h'] += '\n9.8.7.6 loaded.marker.zz\n'
        marker = 'loaded.marker.zz'
    d = c.start(w, conf, files=files)
    if marker:
        mk = w.client(d)
        ok = False
        for _ in range(200):
            del mk.rx[:]
            mk.send(dns.query(5, marker, 1))
            if w.run(lambda: mk.rx, 2):
                r = dns.parse(mk.rx[-1][1])
                if [x.value for x in r.an] == ['9.8.7.6']:
                    ok = True
                    break
            w.run(None, 0.05)
        if not ok:
            c.live('hosts-file-not-loaded', 'the hosts file was not loaded')
            return
    cls = [w.client(d) for _ in range(3)] + ([w.tclient(d) for _ in range(2)] if kind in ('tcp', 'cache') else [])
    pend = {}

    def on(cl, m):
        e = pend.pop((cl, m[:2]), None)
        if e is None:
            c.bad('extra-reply', 'a reply without an outstanding query: %s' % m.hex())
            return
        try:
            r = dns.parse(m)
        except dns.Bad as x:
            c.bad('malformed-reply', '%s: %s' % (x, m.hex()))
            return
        if not r.qr or [(x[0], x[1]) for x in r.questions] != [(e['n'], e['t'])]:
            c.bad('wrong-question', 'asked %s type %d, got %s' % (e['n'], e['t'], m.hex()))
            return
        got = [(x.name, x.type, x.value) for x in r.an]
        if not got and r.rcode == 0 and not r.ns:
            o = ('empty',)
        elif len(got) == 1 and got[0][:2] == (e['n'], e['t']):
            rd = wl.rdata_for(e['n'], e['t'])
            if got[0][2] == dns._value(rd, 0, len(rd), e['t']):
                o = ('fwd',)
            else:
                o = ('ip', got[0][2])
        else:
            o = ('other', got)
        if o not in e['ok']:
            c.bad('wrong-outcome', '%s type %d: allowed %r, observed %r' % (e['n'], e['t'], sorted(e['ok'])[:6], o))
        e['o'] = o
        c.count('outcome_' + o[0])
        if e['o'] != ('fwd',):
            local.append((e['n'], e['t']))
    local = []
    for cl in cls:
        cl.cb = on
    keys = sorted(set(k for L in lists for k in list(L.exact) + list(L.wild) if not k.endswith('.big.test')))
    total = 3000 if c.thorough() else 500
    for i in range(total):
        r = rng.random()
        if kind == 'big' and r < 0.5:
            n = 'h%d.big.test' % rng.randrange(1700 if not c.thorough() else 8500)
        elif r < 0.75:
            k = rng.choice(keys)
            n = k.replace('*', rng.choice(['a', 'q.w', 'x', '-'])).replace('?', rng.choice('1a')).replace('[a-z]', rng.choice(['w', '5']))
            r2 = rng.random()
            if r2 < 0.1:
                n = 'sub.' + n
            elif r2 < 0.2:
                n = 'x' + n
            elif r2 < 0.25:
                n = n.split('.', 1)[1]
            elif r2 < 0.3:
                n = n + '.org'
        else:
            n = rnd_name(rng)
        if not n or '..' in n or n[0] == '.' or n[-1] == '.':
            continue
        if rng.random() < 0.03:
            n = ''                  # the root, after whatever was asked before
        t = rng.choice([1, 1, 1, 28, 28, 28, 15, 16, 65])
        ok = outcomes(lists, n, t, block6) if t in (1, 28) else {('fwd',)}
        cl = rng.choice(cls)
        q = dns.query(i & 0xffff, case(rng, n) if rng.random() < 0.4 else n, t, edns=rng.choice([None, None, 1232]))
        pend[(cl, q[:2])] = {'n': n, 't': t, 'ok': ok}
        c.ev()
        c.seen(kind, t, sorted(ok)[0][0], len(ok), tuple(n in L.exact for L in lists), cl.__class__.__name__)
        if i < 3:
            c.sample({'name': n, 'type': t, 'allowed': sorted(ok)[:4]})
        cl.send(q)
        if len(pend) > 16:
            w.run(lambda: len(pend) < 8, 10)
        if c.violations:
            return
    w.run(lambda: not pend, 10)
    for n, t in local:
        if (n, t) in seen and ('fwd',) not in outcomes(lists, n, t, block6):
            c.bad('hosts-name-forwarded', '%s type %d is answered from hosts but was forwarded to the server' % (n, t))
            return
    if pend and not c.violations:
        e = next(iter(pend.values()))
        c.live('unanswered', '%d queries unanswered, e.g. %r' % (len(pend), e))
