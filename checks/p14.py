"""P14: addresses in server replies are substituted exactly as configured."""
import ipaddress, struct
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one reply relayed under generated substitution rules (single addresses and CIDR blocks of both versions, '
        'nested and adjacent, inline, in lists and in files, before and after a reload). The reply the client gets must be the '
        'server\'s bytes with exactly the matching answer addresses replaced. Non-trivial: distinct by (scenario, version, '
        'which rule kind matched, edge of the block, number of addresses, transport, cached or not).')
ASSUMPTIONS = ['no address has two single-address rules; where CIDR blocks nest, any of them may apply']


def scenarios(tier, seed):
    k = 12 if tier == 'thorough' else 3
    out = []
    for i in range(k):
        for kind in ('single', 'cidr', 'nested', 'mixed', 'files', 'big', 'cache', 'tcp', 'reload'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


def text(rng, ip):
    if ip.version == 4:
        return str(ip)
    s = rng.choice([str(ip), ip.exploded, str(ip).upper()] if '.' not in str(ip) else [ip.exploded])
    return s


class Rules:
    def __init__(self, rng, kind, n):
        self.single, self.cidr, self.lines = {}, [], []
        for _ in range(n):
            v = rng.choice([4, 4, 6])
            to = self.addr(rng, v)
            one = kind == 'single' or kind not in ('cidr', 'nested') and rng.random() < 0.5
            if one:
                a = self.addr(rng, v)
                if a in self.single:
                    continue
                self.single[a] = to
                self.lines.append((text(rng, a) + ('' if rng.random() < 0.8 else '/%d' % a.max_prefixlen), str(to)))
            else:
                base = self.addr(rng, v)
                if self.cidr and kind in ('nested', 'mixed', 'big') and rng.random() < 0.5:
                    # inside or around another block
                    o = rng.choice(self.cidr)[0]
                    v = o.version
                    to = self.addr(rng, v)
                    base = o.network_address + rng.randrange(min(o.num_addresses, 1 << 60))
                bits = rng.choice([1, 8, 9, 15, 16, 20, 24, 25, 28, 31] if v == 4 else [5, 16, 32, 33, 48, 56, 63, 64, 65, 96, 112, 127])
                net = ipaddress.ip_network((base, bits), strict=False)
                if any(x[0] == net for x in self.cidr) or bits < 8 and rng.random() < 0.8:
                    continue
                if kind not in ('nested', 'mixed', 'big') and any(x[0].overlaps(net) for x in self.cidr if x[0].version == v):
                    continue
                self.cidr.append((net, to))
                self.lines.append(('%s/%d' % (text(rng, base if rng.random() < 0.3 else net.network_address), bits), str(to)))

    @staticmethod
    def addr(rng, v):
        if v == 4:
            return ipaddress.IPv4Address(rng.randrange(1 << 24, 224 << 24))
        if rng.random() < 0.15:
            return ipaddress.IPv6Address(rng.choice([rng.randrange(0x10000, 1 << 32), rng.randrange(2, 1 << 16),
                                                     (0xffff << 112) + rng.randrange(1 << 16), rng.randrange(1 << 96, 1 << 112)]))
        return ipaddress.IPv6Address((0x2001 << 112) + (rng.randrange(4) << 96) + rng.randrange(1 << 96))

    def allowed(self, a):
        if a in self.single:
            return {self.single[a]}, 'single'
        m = [to for net, to in self.cidr if net.version == a.version and a in net]
        return (set(m), 'cidr') if m else ({a}, 'none')

    def pick(self, rng):
        """An address of interest."""
        r = rng.random()
        if self.single and r < 0.35:
            a = rng.choice(sorted(self.single, key=str))
            if rng.random() < 0.3:
                a = a + rng.choice([-1, 1, 256])
            return a
        if self.cidr and r < 0.9:
            net = rng.choice(self.cidr)[0]
            x = rng.random()
            if x < 0.25:
                return net.network_address
            if x < 0.5:
                return net.broadcast_address
            if x < 0.6 and int(net.network_address) > 1:
                return net.network_address - 1
            if x < 0.7 and int(net.broadcast_address) < (1 << net.max_prefixlen) - 1:
                return net.broadcast_address + 1
            return net.network_address + rng.randrange(min(net.num_addresses, 1 << 60))
        return self.addr(rng, rng.choice([4, 6]))


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    R = [Rules(rng, kind, rng.choice([1, 4, 12, 30]) if kind != 'big' else 900)]
    # the first bytes of these are the data of a short record, the rest what follows such a record
    for ip in ('77.88.192.12', '2001:db8:77:88:c00c:1:1:0'):
        if not any(x[0] == ip for x in R[0].lines):
            R[0].single[ipaddress.ip_address(ip)] = to = R[0].addr(rng, ipaddress.ip_address(ip).version)
            R[0].lines.append((ip, str(to)))
    said = {}

    def handle(srv, q, proto, reply):
        try:
            labels, n, t, k, e = wl.qinfo(q)
        except Exception:
            return
        if n not in said:
            reply(wl.std_answer(q))
            return
        m = build(q, said[n])
        reply(m)

    def build(q, recs):
        if 'wrong' in recs:
            an = [dns.rr(dns.ptr(12), t, 300, b) for t, b in recs['wrong']]
            recs['m'] = m = dns.response(q, an)
            return m
        an = [dns.rr(dns.ptr(12), 28 if a.version == 6 else 1, 300, a.packed) for a in recs['an']]
        if recs['alias']:
            o = dns.enc_name('tgt.' + recs['n'])
            an = [dns.rr(dns.ptr(12), 5, 300, o)] + [dns.rr(o, 28 if a.version == 6 else 1, 300, a.packed) for a in recs['an']]
        if recs['txt']:
            an.insert(rng.randrange(len(an) + 1), dns.rr(dns.ptr(12), 16, 300, recs['txt']))
        for a, k, t in recs['odd']:
            # not internet addresses: another class, or another type with the same bytes
            an.insert(0 if k == 3 else rng.randrange(len(an) + 1), dns.rr(dns.ptr(12), t, 300, a.packed, k))
        au = [dns.rr(dns.ptr(12), 2, 300, dns.enc_name('ns.x'))] if recs['glue'] else []
        ad = [dns.rr(dns.enc_name('ns.x'), 28 if a.version == 6 else 1, 300, a.packed) for a in recs['glue']]
        m = dns.response(q, an, au, ad)
        recs['m'] = m
        return m
    u = w.upstream('u', handle, tcp=True)
    conf = ['LogOn false', ('TCPGroup %s * off no' if kind == 'tcp' else 'UDPGroup %s * off') % u.addr, 'EnableTCPtoUDP true', 'EnableUDPtoTCP true',
            'UseCache %s' % ('true' if kind == 'cache' else 'false'), 'MemoryCache true', 'OverrideTTL -1']
    files = {}

    def render(lines):
        out = []
        for a, b in lines:
            out.append('%s%s%s%s' % (rng.choice(['', '', '  ']), a, rng.choice([' ', '  ', '\t']), b) + rng.choice(['', '', '  ', ' # why']))
            if rng.random() < 0.1:
                out.append(rng.choice(['', '# note', '   ']))
        return '\n'.join(out) + rng.choice(['', '\n'])
    lines = list(R[0].lines)
    if kind in ('files', 'big', 'reload'):
        cut = len(lines) // 2 if kind == 'files' else 0
        files['subst1'] = render(lines[cut:])
        lines = lines[:cut]
        conf.append('IPSubstitutingFile {DIR}/subst1')
    while lines:
        k = rng.choice([1, 1, 2, 5])
        conf.append('IPSubstituting ' + rng.choice([',', ', ']).join('%s %s' % x for x in lines[:k]))
        lines = lines[k:]
    if kind == 'reload':
        files['h'] = '1.1.1.1 some.host\n'
        conf += ['Hosts file://{DIR}/h', 'HostsDownloadPath {DIR}/hdl', 'ModulesUpdateInterval 60', 'ReloadIPSubstituting true']
    d = c.start(w, conf, files=files)
    cls = [w.client(d), w.tclient(d)]
    if kind == 'tcp':
        total = 40
    else:
        total = 900 if c.thorough() else 260

    def one(i, tag, judge=True):
        n = '%s%d.s.test' % (tag, i)
        v = None
        an = [R[0].pick(rng) for _ in range(rng.choice([1, 1, 2, 4, 9]))]
        odd = []
        if kind != 'cache' and rng.random() < 0.25:
            a = R[0].pick(rng)
            odd = [(a, 3, 28 if a.version == 6 else 1) if rng.random() < 0.6 else (a, 1, 65280)]
        recs = said[n] = {'n': n, 'odd': odd, 'an': an, 'alias': rng.random() < 0.2, 'glue': [R[0].pick(rng)] if rng.random() < 0.3 else [],
                          'txt': (lambda b: bytes([len(b)]) + b)(R[0].pick(rng).packed) if rng.random() < 0.3 else b''}
        return ask(n, i, judge)

    def wrong(i):
        # A and AAAA records whose data is no address
        n = 'w%d.s.test' % i
        recs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            a = R[0].pick(rng)
            b = a.packed
            b, t = rng.choice([(b + bytes(rng.randrange(1, 5)), 1 if a.version == 4 else 28), (b, 28 if a.version == 4 else 1), (b'', rng.choice([1, 28])),
                               (bytes([77, 88]), 1), (bytes.fromhex('20010db800770088'), 28), (b[:3], 1), (b + b, 1 if a.version == 4 else 28)])
            recs.append((t, b))
        # something of both versions follows, whose bytes are no address either
        recs += [(28, b''), (1, b'')] if rng.random() < 0.3 else [(1, b'abcde'), (28, b'a' * 17)] if rng.random() < 0.5 else []
        said[n] = {'n': n, 'wrong': recs, 'alias': False}
        m = ask(n, i, judge=False)
        if m is None:
            return None
        c.ev()
        c.seen(kind, 'wrong', tuple(sorted({(t, len(b)) for t, b in recs})))
        if m != said[n]['m']:
            c.bad('other-record-changed', '%s: server said %s, client got %s' % (n, said[n]['m'].hex(), m.hex()))
            return None
        c.count('wrong_lengths')
        return m

    def ask(n, i, judge=True, cached=False):
        recs = said[n]
        cl = rng.choice(cls) if rng.random() < 0.3 else cls[0]
        t = rng.choice([1, 28]) if 'wrong' in recs else 28 if any(a.version == 6 for a in recs['an']) and (recs['an'][0].version == 6) else 1
        q = dns.query(i & 0xffff, n, t)
        nr = len(cl.rx)
        cl.send(q)
        w.run(lambda: len(cl.rx) > nr, 6)
        if len(cl.rx) == nr:
            c.live('unanswered', 'no answer to %s' % n)
            return None
        m = cl.rx[-1][1]
        if not judge:
            return m
        want = recs['m']
        c.ev()
        try:
            g, s = dns.parse(m), dns.parse(want)
        except dns.Bad as e:
            c.bad('malformed', '%s: %s' % (e, m.hex()))
            return None
        if cached:
            pool = {}
            for x in s.an:
                if x.type == t:
                    al, how = R[0].allowed(ipaddress.ip_address(x.value))
                    for y in al:
                        pool[str(y)] = 1
            for x in g.an:
                if x.type == t and x.value not in pool:
                    c.bad('cached-unsubstituted', '%s: cached answer has %s; substituted values are %r' % (n, x.value, sorted(pool)))
                    return None
            return m
        if len(m) != len(want) or [(x.name, x.type, x.ttl, x.section, len(x.rdata)) for x in g.rrs] != \
                [(x.name, x.type, x.ttl, x.section, len(x.rdata)) for x in s.rrs] or m[2:12] != want[2:12]:
            c.bad('reply-changed', '%s: server said %s, client got %s' % (n, want.hex(), m.hex()))
            return None
        for x, y in zip(s.rrs, g.rrs):
            if x.type in (1, 28) and x.klass == 1 and x.section == 'an':
                a = ipaddress.ip_address(x.value)
                al, how = R[0].allowed(a)
                edge = how == 'cidr' and any(net.version == a.version and a in (net.network_address, net.broadcast_address) for net, _ in R[0].cidr)
                c.seen(kind, a.version, how, edge, len(s.an), cl.__class__.__name__)
                c.count('match_' + how)
                if ipaddress.ip_address(y.value) not in al:
                    c.bad('wrong-substitution', '%s: %s became %s, the rules give %s (%s); rules %r' % (
                        n, a, y.value, sorted(map(str, al)), how, [z for z in R[0].lines][:12]))
                    return None
            elif x.rdata != y.rdata:
                c.bad('other-record-changed', '%s: %r became %r' % (n, x, y))
                return None
        return m
    for i in range(total):
        if one(i, 'a') is None or c.violations:
            return
        if kind != 'cache' and rng.random() < 0.15 and wrong(i) is None:
            return
        if kind == 'cache' and i % 3 == 0:
            n = 'a%d.s.test' % rng.randrange(i + 1)
            if not said[n]['alias'] and ask(n, 5000 + i, cached=True) is None:
                return
        if i < 2:
            c.sample({'rules': R[0].lines[:4], 'addresses': [str(a) for a in said['a%d.s.test' % i]['an']]})
    if kind == 'reload':
        R[0] = Rules(rng, 'mixed', rng.choice([1, 12, 40]))
        # a marker tells when the new list is in force
        mark = ipaddress.IPv4Address('9.8.7.6')
        R[0].single[mark] = ipaddress.IPv4Address('6.7.8.9')
        R[0].lines.append(('9.8.7.6', '6.7.8.9'))
        d.write('subst1', render(R[0].lines))
        said['mark.s.test'] = {'n': 'mark.s.test', 'an': [mark], 'alias': False, 'glue': [], 'txt': b'', 'odd': []}
        d.advance(70)
        for j in range(60):
            m = ask('mark.s.test', 9000 + j, judge=False)
            if m is None:
                return
            if [x for x in dns.parse(m).an if x.type == 1][0].value == '6.7.8.9':
                break
            w.run(None, 0.1)
            d.advance(2)
        else:
            c.live('not-reloaded', 'the substitution file was not reloaded')
            return
        c.count('reloads')
        for i in range(total // 2):
            if one(i, 'r') is None or c.violations:
                return
    c.alive_check(d, 'the substitution workload')
