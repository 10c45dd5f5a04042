"""P13: blocked replies never reach a client, and acceptable ones do."""
import ipaddress
import dns, wl
from p14 import Rules, text

LEVEL = 'exploration'
RULE = ('A case is one query for which the servers send a scripted series of replies, blocked ones (an answer holds a blocked '
        'address at any position, or a negative response code) and acceptable ones. The client must get the first acceptable '
        'one unchanged and nothing else; when there is none, nothing; blocked contents must never come from the cache. With AP on, '
        'the query as it reaches the servers is compared with the client\'s, and replies without an OPT record are blocked ones. '
        'Non-trivial: distinct by (scenario, series of reply kinds, position of the blocked address, version, transport, '
        'response code).')
ASSUMPTIONS = ['over TCP a server sends one reply per query',
               'a reply is judged by the answer section; glue records and the text of other records do not make it blocked',
               'absence of an answer is judged once a later query over the same server socket was answered']


def scenarios(tier, seed):
    k = 10 if tier == 'thorough' else 3
    out = []
    for i in range(k):
        for kind in ('addr', 'cidr', 'negative', 'both', 'parallel', 'cache', 'tcp', 'subst', 'off', 'edns', 'pedns'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


class Block:
    """Generated block rules; hits() says whether an address is blocked."""
    def __init__(self, rng, kind, n):
        self.r = Rules(rng, 'single' if kind in ('addr', 'both', 'parallel', 'tcp', 'cache', 'subst') else 'mixed', n)
        # leave room for addresses that are not blocked
        wide = [i for i, (net, to) in enumerate(self.r.cidr) if net.prefixlen < (8 if net.version == 4 else 40)]
        for i in reversed(wide):
            net, to = self.r.cidr.pop(i)
            self.r.lines = [x for x in self.r.lines if x[1] != str(to)]

    def hits(self, a):
        return self.r.allowed(a)[1] != 'none'

    def lines(self, rng):
        out, l = [], [x[0] for x in self.r.lines]
        while l:
            k = rng.choice([1, 2, 5, 20])
            out.append('BlockIP ' + rng.choice([',', ', ']).join(l[:k]))
            l = l[k:]
        return out

    def bad(self, rng):
        for _ in range(200):
            a = self.r.pick(rng)
            if self.hits(a):
                return a
        return None

    def good(self, rng, v=None):
        while True:
            a = self.r.pick(rng) if rng.random() < 0.7 and v is None else Rules.addr(rng, v or rng.choice([4, 6]))
            if not self.hits(a) and (v is None or a.version == v):
                return a


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    B = Block(rng, kind, 0 if kind in ('negative', 'off') else rng.choice([1, 3, 12, 60]))
    ap = kind in ('edns', 'pedns')
    neg = kind in ('negative', 'both') or kind in ('parallel', 'cache', 'tcp') and rng.random() < 0.5
    plan, sent, asked, wanted = {}, {}, {}, {}
    sub = {}
    if kind == 'subst':
        for _ in range(6):
            a = Rules.addr(rng, 4)
            if not B.hits(a):
                sub[a] = Rules.addr(rng, 4)

    def make(q, n, t, spec):
        k, pos, cnt = spec[0], spec[1], spec[2]
        v = 6 if t == 28 else 4
        rd = []
        for _ in range(cnt):
            a = B.good(rng, v)
            rd.append(a)
        if sub and rng.random() < 0.5:
            rd[0] = rng.choice(sorted(sub)) if v == 4 else rd[0]
        rcode = spec[3]
        if k == 'addr':
            a = B.bad(rng)
            rd[pos % len(rd)] = a
        if k == 'neg' and rng.random() < 0.7:
            rd = []
        own = dns.ptr(12)
        an = []
        if rng.random() < 0.25 and rd:
            own = dns.enc_name('tgt.' + n)
            an.append(dns.rr(dns.ptr(12), 5, 300, own))
        an += [dns.rr(own, 28 if a.version == 6 else 1, 300, a.packed) for a in rd]
        if rng.random() < 0.3 and k != 'addr':
            x = B.bad(rng) or Rules.addr(rng, 4)
            an.append(dns.rr(own, 16, 300, bytes([len(x.packed)]) + x.packed))
        if rng.random() < 0.2:
            # another class: no internet address
            x = B.bad(rng) or Rules.addr(rng, 4)
            an.insert(rng.choice([0, 0, len(an)]), dns.rr(dns.ptr(12), 28 if x.version == 6 else 1, 300, x.packed, 3))
        ad = []
        if rng.random() < 0.2:
            x = B.bad(rng) or Rules.addr(rng, 4)
            ad.append(dns.rr(dns.enc_name('ns.x'), 28 if x.version == 6 else 1, 300, x.packed))
        if ap and k != 'noopt':
            ad.insert(rng.randrange(len(ad) + 1), dns.opt(rng.choice([512, 1232, 4096])))
        elif ap and rng.random() < 0.3:
            # the bytes of an OPT record, elsewhere
            o = dns.opt(1232)
            an.append(dns.rr(own, 16, 300, bytes([len(o)]) + o))
        return dns.response(q, an, [], ad, rcode=rcode), rd

    def handler(idx):
        def handle(srv, q, proto, reply):
            try:
                labels, n, t, k, e = wl.qinfo(q)
            except Exception:
                return
            asked[n] = asked.get(n, 0) + 1
            if n in wanted and q[2:] != wanted[n]:
                c.bad('query-changed', '%s: the server got %s, due was (without identifier) %s' % (n, q.hex(), wanted[n].hex()))
            if ap:
                c.count('queries_with_edns' if n in wanted else 'other_queries')
            if n not in plan:
                reply(dns.response(q, [], [], [dns.opt(1232)] if ap else []))     # nothing to block in it
                return
            at = 0.0
            for spec in plan[n][idx]:
                m, rd = make(q, n, t, spec)
                sent.setdefault(n, []).append((spec[0], m, rd))
                at += spec[4]
                reply(m, delay=at)
        return handle
    nsrv = 3 if kind in ('parallel', 'pedns') else 1
    ups = [w.upstream('u%d' % i, handler(i), tcp=True) for i in range(nsrv)]
    conf = ['LogOn false', 'OverrideTTL -1', 'MemoryCache true', 'UseCache %s' % ('true' if kind == 'cache' else 'false')]
    if kind == 'tcp':
        conf += ['EnableUDPtoTCP true', 'TCPGroup %s * off no' % ups[0].addr]
    else:
        conf += ['EnableTCPtoUDP true', 'UDPGroup %s * %s' % (','.join(u.addr for u in ups), 'on' if kind in ('parallel', 'pedns') else 'off')]
    conf += B.lines(rng)
    if ap:
        conf.append('AP true')
    if neg:
        conf.append('BlockNegativeResponse true')
    elif rng.random() < 0.5:
        conf.append('BlockNegativeResponse false')
    for a, b in sub.items():
        conf.append('IPSubstituting %s %s' % (a, b))
    d = c.start(w, conf)
    clients = [w.client(d) for _ in range(3)] + [w.tclient(d)]
    rounds = (30 if c.thorough() else 7) if kind != 'tcp' else 2
    num, late = 0, 0

    def spec():
        r = rng.random()
        if ap and r < 0.4:
            return ('noopt', 0, rng.choice([1, 1, 2]), rng.choice([0, 0, 0, 3]), 0.0)
        if B.r.lines and r < 0.5:
            return ('addr', rng.randrange(8), rng.choice([1, 1, 2, 5]), 0, 0.0)
        if kind in ('negative', 'off') and r < 0.6 or neg and r < 0.65:
            return ('neg' if neg else 'good', 0, 1, rng.choice([1, 2, 3, 3, 4, 5, 6, 9, 10, 15]), 0.0)
        return ('good', 0, rng.choice([1, 1, 2, 5]), 0, 0.0)
    for rd in range(rounds):
        batch = []
        for _ in range(24 if kind != 'tcp' else 8):
            n = 'b%d.%s.test' % (num, kind)
            num += 1
            series = [[spec() for _ in range(1 if kind == 'tcp' else rng.choice([1, 1, 2, 3]))] for _ in range(nsrv)]
            if nsrv > 1:
                # each server answers at its own time
                for i, s in enumerate(series):
                    s[0] = s[0][:4] + (rng.choice([0.0, 0.01, 0.03]),)
            plan[n] = series
            t = rng.choice([1, 28])
            cl = rng.choice(clients)
            q = dns.query(rng.randrange(65536), n, t)
            if ap:
                # exactly one OPT record goes to the server: the client's own, or one put at the end
                e = rng.choice([None, None, 512, 4096, dns.opt(1400, True, b'\0\x03\0\x02ab')])
                extra = dns.rr(dns.enc_name('x.y'), 16, 7, b'\x02hi') if rng.random() < 0.15 else b''
                q = dns.query(rng.randrange(65536), n, t, edns=e)
                if extra:
                    q = q[:10] + bytes([0, q[11] + 1]) + q[12:] + extra
                wanted[n] = q[2:] if e else q[2:10] + bytes([0, q[11] + 1]) + q[12:] + dns.opt(1280)
            cl.send(q)
            batch.append((n, t, cl, q))

        def expect(n):
            return any(s[0] == 'good' for srv in plan[n] for s in srv)

        def got(n, t, cl, q):
            return [m for _, m, _a in cl.rx if m[:2] == q[:2] and len(m) > 12 and wl.qinfo(m)[1] == n]
        if not w.run(lambda: all(got(*x) for x in batch if expect(x[0])), 8):
            for x in batch:
                if expect(x[0]) and not got(*x):
                    c.live('no-answer', '%s: the servers sent %r, the client got nothing' % (x[0], plan[x[0]]))
                    return
        # everything the servers sent is processed once a later query is answered by every server socket
        w.run(None, 0.08 if nsrv > 1 else 0.01)
        for _ in range(2):
            n = 'fence%d.test' % num
            num += 1
            nr = len(clients[0].rx)
            clients[0].send(dns.query(num & 0xffff, n, 1))
            if not w.run(lambda: len(clients[0].rx) > nr, 8):
                c.live('fence', 'no answer to a plain query after blocked replies')
                return
        for x in batch:
            n, t, cl, q = x
            g = got(*x)
            c.ev()
            c.seen(kind, tuple(tuple((s[0], s[3]) for s in srv) for srv in plan[n]), t, cl.__class__.__name__)
            for s in sent.get(n, []):
                c.count('replies_' + s[0])
            okay = [s for s in sent.get(n, []) if s[0] == 'good']

            def image(s):
                b = s[1]
                if sub:
                    m = dns.parse(b)
                    for r in m.an:
                        if r.type == 1 and ipaddress.ip_address(r.value) in sub:
                            b = b.replace(ipaddress.ip_address(r.value).packed, sub[ipaddress.ip_address(r.value)].packed)
                return b[2:]
            for m in g:
                hit = [s for s in sent.get(n, []) if m[2:] == s[1][2:] and s[0] != 'good']
                if hit:
                    c.bad('blocked-relayed', '%s: the client got a blocked reply (%s, addresses %s); rules %r' % (
                        n, hit[0][0], hit[0][2], [l for l in conf if l.startswith('Block')][:6]))
                    return
                if kind != 'cache' and nsrv == 1 and m[2:] != image(okay[0]):
                    c.bad('not-first', '%s: the client got %s, the first acceptable reply was %s' % (n, m.hex(), okay[0][1].hex()))
                    return
                if m[2:] not in [image(s) for s in okay]:
                    c.bad('altered', '%s: the client got %s, acceptable replies were %s' % (n, m.hex(), [s[1].hex() for s in okay]))
                    return
            if len(g) > 1:
                c.bad('twice', '%s answered %d times' % (n, len(g)))
                return
            if rd == 0 and len(sent.get(n, [])) > 1:
                c.sample({'name': n, 'servers sent': [s[0] for s in sent[n]], 'client got': len(g)})
        if kind == 'cache':
            # asked again: blocked contents must not come out of the cache
            for n, t, cl, q in batch:
                before = asked.get(n, 0)
                had = expect(n)
                plan[n] = [[('good', 0, 1, 0, 0.0)]]
                mark = len(sent.get(n, []))
                nr = len(clients[1].rx)
                clients[1].send(dns.query(rng.randrange(65536), n, t))
                if not w.run(lambda: len(clients[1].rx) > nr, 8):
                    c.live('no-answer', '%s: no answer when asked again' % n)
                    return
                m = clients[1].rx[-1][1]
                c.ev()
                c.seen('again', had)
                c.count('asked_again')
                badset = {str(a) for s in sent.get(n, []) if s[0] == 'addr' for a in s[2] if B.hits(a)}
                for r in dns.parse(m).an:
                    if r.type in (1, 28) and r.klass == 1 and r.value in badset:
                        c.bad('blocked-cached', '%s: the cache gave the blocked address %s' % (n, r.value))
                        return
                if not had and asked.get(n, 0) == before:
                    c.bad('blocked-cached', '%s: only blocked replies so far, yet it was answered without asking a server: %s' % (n, m.hex()))
                    return
    c.alive_check(d, 'the blocking workload')
