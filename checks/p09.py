"""P09: a name aliased in hosts resolves to its target's addresses."""
import fnmatch, re
import dns, wl
from world import Stalled

LEVEL = 'exploration'
RULE = ('A case is one A/AAAA query for a name under generated alias items (exact and pattern aliases, chains, loops, targets in '
        'hosts, in several server groups, with upstream alias chains, negative answers, large answers, targets that never '
        'answer), many outstanding at a time. The response must be the alias records followed by exactly the records the '
        'target resolves to. Non-trivial: distinct by (configuration, alias kind, chain length, target kind, type, transport).')
ASSUMPTIONS = ['chains up to 8 aliases; a longer or cyclic chain may stay unanswered']


def scenarios(tier, seed):
    k = 8 if tier == 'thorough' else 2
    out = []
    for i in range(k):
        for kind in ('plain', 'pattern', 'chain', 'cache', 'groups', 'tcp', 'large', 'silent', 'loop', 'noise', 'transport'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


def target_records(n, t):
    """What the server says about n: list of (name, type, ttl, value) and rcode; decided by the name."""
    h = wl.h('kind', n, n=1)[0] % 8
    if n.startswith('nx'):
        return [], 3
    if n.startswith('empty'):
        return [], 0
    if n.startswith('many'):
        return [(n, t, 300, wl.rdata_for(n, t, i)) for i in range(1, 25)], 0
    if n.startswith('huge'):
        return [(n, t, 300, wl.rdata_for(n, t, i)) for i in range(1, 130 if t == 1 else 75)], 0
    if n.startswith('chain'):
        m1, m2 = 'm1.' + n, 'm2.' + n[::-1].replace('.', 'o')[:30] + '.test'
        return [(n, 5, 300, m1), (m1, 5, 100, m2), (m2, t, 60, wl.rdata_for(m2, t)), (m2, t, 60, wl.rdata_for(m2, t, 1))], 0
    return [(n, t, 300, wl.rdata_for(n, t))], 0


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    log = []
    silent = kind == 'silent'

    def handle(srv, q, proto, reply):
        try:
            l, n, t, k, e = wl.qinfo(q)
        except Exception:
            c.bad('bad-query', 'the server received %s' % q.hex())
            return
        if n.endswith('ready.probe'):
            reply(wl.std_answer(q))
            return
        log.append((srv.name, n, t))
        if kind == 'transport' and proto[:3] != ('tcp' if srv is us[1] else 'udp'):
            c.bad('wrong-protocol', '%s type %d arrived at %s over %s' % (n, t, srv.name, proto))
        if n.startswith('silent'):
            return
        rrs, rc = target_records(n, t)
        an = []
        for (nm, ty, ttl, v) in rrs:
            an.append(dns.rr(dns.ptr(12) if nm == n and (rng.random() < 0.7 or n.startswith('huge')) else dns.enc_name(nm), ty, ttl,
                             dns.enc_name(v) if ty == 5 else v))
        au = [dns.rr(dns.ptr(12), 6, 60, wl.rdata_for(n, 6))] if rc else []
        reply(dns.response(q, an, au, [dns.opt(1232)] if dns.parse(q).opt else [], rcode=rc),
              delay=rng.choice([0, 0, 0.003, 0.02]))

    us = [w.upstream('u%d' % i, handle, udp=True, tcp=True) for i in range(2)]
    conf = ['LogOn %s' % rng.choice(['true', 'false']), 'LogLevel 5', 'UDPGroup %s * off' % us[0].addr, 'EnableTCPtoUDP true',
            'MemoryCache true', 'OverrideTTL -1', 'UseCache %s' % ('true' if kind == 'cache' else 'false')]
    if kind == 'transport':
        conf = [x for x in conf if not x.startswith('EnableTCPtoUDP')] + ['TCPGroup %s * off no' % us[1].addr]
    if kind == 'groups':
        conf.append('UDPGroup %s sec.test off' % us[1].addr)
    alias, wild, addr = {}, {}, {}
    kinds = ['t', 'nx', 'empty', 'many', 'chain', 'host', 'huge'] + (['silent'] if silent else [])
    lines = []

    def new_target(i):
        k = rng.choice(kinds)
        dom = rng.choice(['prim.test', 'sec.test']) if kind == 'groups' else 'tgt.test'
        n = '%s%d.%s' % (k, rng.randrange(6), dom)
        if rng.random() < 0.2:
            n = '%s%d.%s.%s' % (k, i, 'long-label-' * 4, dom)
        if kind == 'transport':
            n = '%s%d.%s.tgt.test' % (k, i, 'tcp' if i % 2 else 'udp')
        if kind == 'large':
            n = '%s%d.%s.%s' % (k, i, '.'.join(['long-label-' * 4] * rng.randrange(1, 3)), dom)
        if k == 'host' and n not in addr:
            addr[n] = '10.9.%d.%d' % (rng.randrange(256), i)
            lines.append((addr[n], n))
        return n
    for i in range(14):
        a = 'al%d.%s' % (i, rng.choice(['x.test', 'alias.example.com', 'deep.er.z']))
        if kind == 'chain' and rng.random() < 0.7:
            n = a
            for j in range(rng.randrange(1, 8)):
                nx = 'hop%d-%d.y.test' % (i, j)
                alias[n] = nx
                lines.append((nx, n))
                n = nx
            alias[n] = new_target(i)
            lines.append((alias[n], n))
        else:
            alias[a] = new_target(i)
            lines.append((alias[a], a))
    if kind in ('pattern', 'cache', 'groups'):
        for i in range(4):
            p = rng.choice(['*.wild%d.test', 'p?.wild%d.test']) % i
            wild[p] = new_target(100 + i)
            lines.append((wild[p], p))
    if kind == 'loop':
        lines += [('lb.loop.test', 'la.loop.test'), ('la.loop.test', 'lb.loop.test'), ('self.loop.test', 'self.loop.test'),
                  ('x.star.test', '*.star.test')]
    rng.shuffle(lines)
    for a, b in lines:
        conf.append('AppendHosts %s %s' % (a, b if rng.random() < 0.7 else b.upper()))
    d = c.start(w, conf)
    if kind == 'noise':
        d.noise(2000)

    def resolve(n, t):
        """Expected (records, rcode) of n."""
        if n in alias:
            tgt = alias[n]
        else:
            tgt = next((v for p, v in wild.items() if fnmatch.fnmatchcase(n, p)), None)
        if tgt is not None:
            r, rc = resolve(tgt, t)
            return [(n, 5, tgt)] + r, rc
        if n in addr:
            v = dns.a4(addr[n])
            if t == 28:
                v = b'\0' * 10 + b'\xff\xff' + v
            return [(n, t, dns._value(v, 0, len(v), t))], 0
        rrs, rc = target_records(n, t)
        return [(a, b, e if b == 5 else dns._value(e, 0, len(e), b)) for a, b, _, e in rrs], rc
    cls = [w.client(d) for _ in range(4)] + ([w.tclient(d) for _ in range(3)] if kind in ('tcp', 'cache', 'transport') else [])
    pend, allsent = {}, []
    st = {'ok': 0}

    def on(cl, m):
        e = pend.pop((cl, m[:2]), None)
        if e is None:
            c.bad('extra-reply', 'a reply without an outstanding query: %s' % m.hex())
            return
        try:
            r = dns.parse(m)
        except dns.Bad as x:
            c.bad('malformed-reply', '%s: asked %s type %d: %s' % (x, e['n'], e['t'], m.hex()))
            return
        if not r.qr or [(x[0], x[1]) for x in r.questions] != [(e['n'], e['t'])]:
            c.bad('wrong-question', 'asked %s type %d, got %s' % (e['n'], e['t'], m.hex()))
            return
        if e['want'] is None:
            return
        want, rc = e['want']
        got = [(x.name, x.type, x.value) for x in r.an]
        # the order of the address records at the end is free, the aliases lead
        gi = [g for g in got if g[1] == 5], sorted(g for g in got if g[1] != 5)
        wi = [g for g in want if g[1] == 5], sorted(g for g in want if g[1] != 5)
        if kind == 'cache':
            gi = sorted(gi[0]), gi[1]
            wi = sorted(wi[0]), wi[1]
        if gi != wi or r.rcode != rc:
            c.bad('wrong-answer', '%s type %d: expected %r rcode %d, got %r rcode %d' % (e['n'], e['t'], want, rc, got, r.rcode))
        st['ok'] += 1
    for cl in cls:
        cl.cb = on
    names = sorted(alias)
    total = 800 if c.thorough() else 220
    nsil = 0
    for i in range(total):
        r = rng.random()
        if wild and r < 0.3:
            p = rng.choice(sorted(wild))
            n = p.replace('*', rng.choice(['a', 'b.c', 'www'])).replace('?', rng.choice('12'))
        elif r < 0.85:
            n = rng.choice(names)
        elif kind == 'loop' and r < 0.95:
            n = rng.choice(['la.loop.test', 'lb.loop.test', 'self.loop.test', 'x.star.test', 'yy.star.test'])
        else:
            n = 't%d.tgt.test' % rng.randrange(6)
        t = rng.choice([1, 28])
        want = None
        try:
            want = resolve(n, t) if not n.endswith(('.loop.test', '.star.test')) else None
        except RecursionError:
            pass
        end = n
        depth = 0
        while end in alias:
            end = alias[end]
            depth += 1
        if end not in alias and want is not None:
            end = next((v for p, v in wild.items() if fnmatch.fnmatchcase(end, p)), end)
        if end.startswith('silent') or want is None:
            nsil += 1
            if nsil > 25:
                continue
            cl = w.client(d)
            cl.send(dns.query(i & 0xffff, n, t))
            c.ev()
            c.seen(kind, 'unanswerable', n.split('.')[-2], t)
            continue
        cl = rng.choice(cls)
        if kind == 'transport':
            # even items are asked over UDP, odd ones over TCP; their targets have names of their own
            num = int(re.search(r'\d+', n).group())
            cl = rng.choice(cls[4:] if num % 2 else cls[:4])
        q = dns.query(i & 0xffff, n.upper() if rng.random() < 0.2 else n, t, edns=rng.choice([None, None, 1232]))
        pend[(cl, q[:2])] = {'n': n, 't': t, 'want': want}
        c.ev()
        c.seen(kind, depth, end[:4], t, cl.__class__.__name__)
        if i < 3:
            c.sample({'name': n, 'type': t, 'expected': want[0][:4]})
        cl.send(q)
        if len(pend) > 10:
            w.run(lambda: len(pend) < 5, 10)
        if c.violations:
            return
    w.run(lambda: not pend, 10)
    c.count('answers_checked', st['ok'])
    c.count('unanswerable_queries', nsil)
    if kind == 'groups':
        for s, n, t in log:
            if n.endswith('sec.test') and s != 'u1' or n.endswith('prim.test') and s != 'u0':
                c.bad('wrong-group', 'target %s was asked at %s' % (n, s))
                return
    if kind == 'transport':
        for s, n, t in log:
            num = int(re.search(r'\d+', n).group())
            if (s == 'u1') != bool(num % 2):
                c.bad('wrong-group', '%s, asked over %s only, was asked at the %s group' % (n, 'TCP' if num % 2 else 'UDP', 'TCP' if s == 'u1' else 'UDP'))
                return
    if kind == 'loop' and len(log) > total * 4:
        c.bad('loop-flood', 'alias loops caused %d queries to the server for %d client queries' % (len(log), total))
    for s, n, t in log:
        if n in alias or n in addr:
            c.bad('alias-forwarded', 'the aliased or listed name %s itself was asked at the server' % n)
            return
    if pend and not c.violations:
        e = next(iter(pend.values()))
        c.live('unanswered', '%d queries unanswered, e.g. %s type %d' % (len(pend), e['n'], e['t']))
        return
    if not c.violations:
        c.alive_check(d, 'the alias workload')
