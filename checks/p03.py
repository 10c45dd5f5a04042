"""P03: every reply reaches exactly the client and query it belongs to."""
import random
import dns, wl
from world import HarnessError

LEVEL = 'exploration'
RULE = ('A case is one client query sent to the real daemon (ASan/UBSan build) among others in flight; its replies are '
        'matched by id, exact question bytes and RDATA unique to (name, type) against a ledger of outstanding queries. '
        'Non-trivial: distinct by (scenario, reply-order class, id shared with another client\'s outstanding query, type, '
        'transport).')
ASSUMPTIONS = ['loopback UDP does not lose or duplicate datagrams at the window sizes used',
               'a reply still missing 8 s after the last one is lost; such losses are reported only if they recur']


def scenarios(tier, seed):
    k = 8 if tier == 'thorough' else 1
    out = []
    for i in range(k):
        for name in ('udp', 'udp-noise', 'udp-dup', 'udp-junk', 'udp-cache', 'tcp', 'mixed', 'u2t', 'parallel', 'redirect'):
            out.append(('%s-%d' % (name, i), run, {'kind': name, 'rnd': i}))
        for name in ('udp', 'tcp', 'socks'):
            out.append(('slow-%s-%d' % (name, i), slow, {'kind': name, 'rnd': i}))
    return out


def slow(c, kind, rnd):
    """A server that takes its time, also on a connection kept idle until just before its time is up."""
    w, rng = c.world(), c.rng
    held = []

    def handle(srv, q, proto, reply):
        n = wl.qinfo(q)[1]
        if n.startswith('slow'):
            held.append((q, reply, srv.accepted))
        else:
            reply(wl.std_answer(q))
    u = w.upstream('u', handle, udp=True, tcp=True)
    ka = rng.choice([8, 20, 60])
    conf = ['UseCache false', 'LogOn false', 'TCPKeepAlive %d' % ka]
    if kind == 'udp':
        conf.append('UDPGroup %s * off' % u.addr)
    else:
        px = w.socks('px', {(u.host, u.port): u}).addr if kind == 'socks' else 'no'
        conf += ['EnableUDPtoTCP true', 'TCPGroup %s * off %s' % (u.addr, px)]
    d = c.start(w, conf)
    cl = w.client(d)
    for k in range(30 if c.thorough() else 8):
        got = len(cl.rx)
        cl.send(dns.query(k, 'fast%d.p03.test' % k, 1))
        w.run(lambda: len(cl.rx) > got, 6)
        if rng.random() < 0.8:
            d.advance(rng.choice([ka - 0.6, ka - 1.5, ka / 2]))
        n = 'slow%d.p03.test' % k
        q = dns.query(1000 + k, n, rng.choice([1, 28, 16]))
        got = len(cl.rx)
        t0 = w.loop.now()
        cl.send(q)
        c.ev()
        if not w.run(lambda: held, 5):
            c.live('lost-query', 'the query %s never reached the server' % n)
            return
        d.advance(1.2)
        if k % 2:
            cl.send(dns.query(2000 + k, 'fast%d.p03.test' % k, 1))      # something else to do meanwhile
        w.run(None, 0.25)
        x, reply, acc = held.pop()
        reply(wl.std_answer(x))
        late = w.loop.now() - t0
        c.seen('slow', kind, ka, k % 4)
        c.count('slow_replies')
        ok = w.run(lambda: any(m[:2] == q[:2] for m in cl.msgs()[got:]), 3)
        if not ok and late < 0.7:
            c.live('lost-reply', 'the reply to %s, given 1.2 to 2 seconds after the query over %s, never reached the client' % (n, kind))
            return
        for m in cl.msgs()[got:]:
            if m[:2] != q[:2]:
                continue
            e = wl.std_content()(n, wl.qinfo(q)[2], dns.parse(m))
            if e:
                c.bad('wrong-answer', '%s: %s' % (n, e))
                return
    c.alive_check(d, 'slow servers')
    c.sample({'kind': kind})


def BKDR(s):
    v = 0
    for ch in s.encode():
        v = (v * 131 + ch) & 0xffffffff
    return v


def collide(rng, n):
    """Pairs of names equal in length; 'b' + x and chr('b'+1) + (x - 131) collide in multiplicative hashes with 131."""
    out = []
    for i in range(n):
        # pick two adjacent characters (a, b) -> (a+1, b-131) is impossible in ASCII, so use a birthday search
        pass
    seen = {}
    al = 'abcdefghijklmnopqrstuvwxyz0123456789'
    tries = 0
    while len(out) < n and tries < 400000:
        tries += 1
        s = ''.join(rng.choice(al) for _ in range(7)) + '.col.test'
        v = BKDR(s)
        if v in seen and seen[v] != s:
            out.append((seen[v], s))
        seen[v] = s
    return out


def run(c, kind, rnd):
    w = c.world()
    rng = c.rng
    T = [dns.A, dns.AAAA, dns.TXT, dns.MX, dns.NS, dns.HTTPS, dns.SRV]
    cache = kind == 'udp-cache'
    conf = ['UseCache %s' % ('true' if cache else 'false'), 'LogOn false']
    sent_by_up = {'n': 0, 'junk': 0, 'dups': 0}
    maxd = 0.04

    def handle(srv, q, proto, reply):
        try:
            labels, n, t, k, e = wl.qinfo(q)
        except Exception:
            return
        a = wl.std_answer(q)
        if n.endswith('ready.probe'):
            reply(a)
            return
        d = rng.choice([0, 0, rng.random() * maxd])
        if kind == 'udp-junk' and rng.random() < 0.7:
            r = rng.random()
            bad = None
            if r < 0.3:
                bad = bytes([a[0] ^ rng.randrange(1, 255)]) + a[1:]                     # other id
            elif r < 0.6:
                other = rng.choice(names)
                q2 = q[:2] + dns.query(0, other, t)[2:]
                if other != n:
                    bad = wl.std_answer(q2)                                              # other name, same id
            else:
                t2 = rng.choice(T)
                q2 = q[:2] + dns.query(0, n, t2)[2:]
                if t2 != t:
                    bad = wl.std_answer(q2)                                              # other type, same id
            if bad:
                sent_by_up['junk'] += 1
                reply(bad, delay=max(0.0, d - 0.004))
        reply(a, delay=d)
        sent_by_up['n'] += 1
        if kind == 'udp-dup' and rng.random() < 0.6:
            for _ in range(rng.randrange(1, 3)):
                sent_by_up['dups'] += 1
                reply(a, delay=d + rng.random() * 0.02)

    tcp_up = kind in ('tcp', 'mixed', 'u2t')
    ups = [w.upstream('u%d' % i, handle, udp=True, tcp=True) for i in range(2 if kind == 'parallel' else 1)]
    names = ['n%d.%s.p03.test' % (i, 'x' * rng.randrange(0, 20) + 'y') for i in range(24)]
    cols = collide(rng, 2) if kind in ('udp', 'udp-junk') else []
    for a, b in cols:
        names += [a, b]
    if kind == 'parallel':
        conf.append('UDPGroup %s * on' % ','.join(u.addr for u in ups))
    elif kind in ('tcp',):
        conf.append('UDPGroup %s ready.probe off' % ups[0].addr)
        conf.append('TCPGroup %s * no' % ups[0].addr if False else 'TCPGroup %s * off no' % ups[0].addr)
    elif kind == 'u2t':
        conf += ['EnableUDPtoTCP true', 'TCPGroup %s * off no' % ups[0].addr]
    elif kind == 'mixed':
        conf += ['UDPGroup %s * off' % ups[0].addr, 'TCPGroup %s * off no' % ups[0].addr]
    else:
        conf += ['EnableTCPtoUDP true', 'UDPGroup %s * off' % ups[0].addr]
    if kind == 'redirect':
        for i, n in enumerate(names[:12]):
            conf.append('AppendHosts %s al%d.p03.test' % (n, i))
        names = names + ['al%d.p03.test' % i for i in range(12)]
    d = c.start(w, conf)
    if kind == 'udp-noise' or rnd % 2:
        d.noise(3000)

    alias = {'al%d.p03.test' % i: names[i] for i in range(12)} if kind == 'redirect' else {}
    base = wl.std_content()

    def content(n, t, r):
        if n in alias and t not in (dns.CNAME,):
            tgt = alias[n]
            got = [(x.name, x.type, x.value) for x in r.an]
            rd = wl.rdata_for(tgt, t)
            want = [(n, dns.CNAME, tgt), (tgt, t, dns._value(rd, 0, len(rd), t))]
            if got != want:
                return 'answer section %r, want %r' % (got, want)
            return None
        return base(n, t, r)

    led = wl.Ledger(c, content)
    uc = [w.client(d) for _ in range(10)]
    tc = []
    rounds = (400 if c.thorough() else 120) if kind in ('tcp', 'u2t', 'mixed') else (1500 if c.thorough() else 450)
    win = 40
    if kind in ('tcp', 'mixed') or kind == 'udp' or kind == 'udp-cache':
        tc = [w.tclient(d) for _ in range(5)]
    pool = (tc if kind == 'tcp' else uc + tc)
    if kind == 'redirect':
        win = 12
        T = [dns.A, dns.AAAA]
    inflight_ids = {}
    recent = []
    for i in range(rounds):
        cl = rng.choice(pool)
        # ids collide on purpose
        if recent and rng.random() < 0.55:
            qid, n, t = rng.choice(recent[-win // 2:])
            r = rng.random()
            if r < 0.4:
                t = rng.choice(T)
            elif r < 0.8:
                n = rng.choice(names)
                for a, b in cols:
                    if rng.random() < 0.3:
                        n = rng.choice((a, b))
            shared = True
        else:
            qid, n, t = rng.randrange(65536), rng.choice(names), rng.choice(T)
            shared = False
        if kind == 'redirect' and n in alias and rng.random() < 0.5:
            pass
        recent.append((qid, n, t))
        nm = ''.join(x.upper() if rng.random() < 0.3 else x for x in n) if rng.random() < 0.5 else n
        q = dns.query(qid, nm, t, edns=rng.choice([None, None, 1232]))
        led.send(cl, q)
        c.ev()
        c.seen(kind, shared, t, cl in tc, len(led.missing()) // 10 if i % 10 == 0 else 0, d._get(1) > 0)
        if i < 2:
            c.sample({'id': qid, 'name': nm, 'type': t, 'transport': 'tcp' if cl in tc else 'udp'})
        if led.waiting >= win:
            w.run(lambda: led.waiting < win // 2, 10)
        elif rng.random() < 0.3:
            w.run(None, 0.001)
        if c.violations:
            break
    w.run(lambda: led.waiting == 0, 8)
    w.run(None, 0.1)        # late duplicates
    c.count('queries', led.sent)
    c.count('replies_matched', led.done)
    c.count('upstream_junk', sent_by_up['junk'])
    c.count('upstream_duplicates', sent_by_up['dups'])
    if led.waiting and not c.violations:
        m = led.missing()
        c.live('lost-reply', '%d of %d queries were never answered (upstream answered %d), e.g. %r' % (
            led.waiting, led.sent, sent_by_up['n'], [(k[0], k[1], k[2]) for _, k, _ in m[:3]]))
