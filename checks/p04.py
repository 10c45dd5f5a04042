"""P04: queries and replies pass through byte for byte, on every transport and for any segmentation."""
import socket, struct
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one query/reply pair through the real daemon with every rewriting option off; the bytes the upstream '
        'received and the bytes the client received are compared with the bytes sent, each exactly once. Non-trivial: '
        'distinct by (transport pair, query shape, reply shape, reply size class, segmentation of either leg).')
ASSUMPTIONS = ['loopback does not lose datagrams at the window sizes used', 'messages up to 3000 bytes']
LIMIT = 3000


def have6():
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM)
        s.bind(('::1', 0))
        s.close()
        return True
    except OSError:
        return False


def scenarios(tier, seed):
    k = 6 if tier == 'thorough' else 1
    out = []
    for i in range(k):
        for kind in ('u-u', 't-u', 't-t', 'u-t', 't-t-split', 't-u-split', 'u-u-parallel', 'socks', 'u-u-6', 'u-t-short', 't-t-short', 'socks-short',
                     'u-t-6', 'u-t-parallel'):
            if kind.endswith('-6') and not have6():
                continue
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


def rnd_query(rng, qid, name):
    t = rng.choice(wl.TYPES + [255, 99, 48, 43])
    shape = rng.choice(['plain', 'edns', 'cookie', 'do', 'norec', 'adcd', 'extra', 'case', 'pad'])
    if shape == 'case':
        name = ''.join(x.upper() if rng.random() < 0.5 else x for x in name)
    q = dns.query(qid, name, t, rd=shape != 'norec', cd=shape == 'adcd', ad=shape == 'adcd')
    if shape in ('edns', 'cookie', 'do'):
        o = dns.opt(rng.choice([512, 1232, 4096]), do=shape == 'do',
                    data=struct.pack('!HH', 10, 8) + rng.randbytes(8) if shape == 'cookie' else b'')
        q = q[:10] + b'\0\1' + q[12:] + o
    elif shape == 'pad':
        # padded as private resolvers do
        k = rng.choice([1, 100, 450, 700, 1100])
        q = q[:10] + b'\0\1' + q[12:] + dns.opt(1232, data=struct.pack('!HH', 12, k) + b'\0' * k)
    elif shape == 'extra':
        # an additional record that is not OPT (a TSIG-like one)
        q = q[:10] + b'\0\1' + q[12:] + dns.rr(dns.enc_name('key.x'), 250, 0, rng.randbytes(rng.randrange(5, 60)), k=255)
    return shape, t, q


def rnd_reply(rng, q, big):
    labels, n, t, k, e = wl.qinfo(q)
    shape = rng.choice(['std', 'many', 'nx', 'servfail', 'tc', 'authority', 'additional', 'unknown', 'cname', 'aa', 'empty',
                        'optdata', 'uncompressed', 'case', 'ttl'])
    p = dns.ptr(12)
    an, au, ad, kw = [], [], [], {}
    if shape in ('std', 'aa', 'tc', 'ttl'):
        an = [dns.rr(p, t if t not in (255,) else 1, rng.choice([0, 300, 0x7fffffff]), wl.rdata_for(n, t if t != 255 else 1))]
    elif shape == 'many':
        an = [dns.rr(p, t if t != 255 else 16, 60, wl.rdata_for(n, t if t != 255 else 16, i)) for i in range(rng.randrange(2, 30))]
    elif shape in ('authority', 'nx'):
        au = [dns.rr(p, 6, 60, wl.rdata_for(n, 6))]
    elif shape == 'additional':
        an = [dns.rr(p, 15, 60, b'\0\1\1m' + p)]
        ad = [dns.rr(b'\1m' + p, 1, 60, b'\1\2\3\4'), dns.rr(b'\1m' + p, 28, 60, b'\1' * 16)]
    elif shape == 'unknown':
        an = [dns.rr(p, rng.choice([99, 52, 65280]), 60, rng.randbytes(rng.randrange(0, 90)))]
    elif shape == 'cname':
        an = [dns.rr(p, 5, 60, b'\3www' + p), dns.rr(b'\3www' + p, 1, 60, rng.randbytes(4))]
    elif shape == 'optdata':
        ad = [dns.opt(1232, data=struct.pack('!HH', 3, 20) + rng.randbytes(20))]
    elif shape == 'uncompressed':
        an = [dns.rr(dns.enc_name(n), 1, 60, rng.randbytes(4))]
    elif shape == 'case':
        an = [dns.rr(dns.enc_name(n.upper()), 1, 60, rng.randbytes(4))]
    rc = {'nx': 3, 'servfail': 2}.get(shape, 0)
    r = dns.response(q, an, au, ad, rcode=rc, aa=shape == 'aa', tc=shape == 'tc')
    if big:
        want = rng.choice([511, 512, 513, 1200, 1400, 1500, 2000, 2500, LIMIT])
        while want - len(r) > 14:
            k = min(want - len(r) - 12, 1200)
            r = r[:10] + struct.pack('!H', struct.unpack('!H', r[10:12])[0] + 1) + r[12:] + \
                dns.rr(p, 16, 60, bytes([min(255, k - 1)]) + rng.randbytes(min(255, k - 1)) if k > 1 else b'\0')
        shape += '+big'
    return shape, r


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    st = {}         # query bytes -> reply bytes; upstream side
    seen = {}
    short = kind.endswith('-short')
    kind = kind.replace('-short', '')
    split_up = kind in ('t-t-split', 'u-t', 'socks')

    def handle(srv, q, proto, reply):
        try:
            n = wl.qinfo(q)[1]
        except Exception:
            c.bad('query-changed', 'the upstream received an unparsable query %s' % q.hex())
            return
        if n.endswith('ready.probe'):
            reply(wl.std_answer(q))
            return
        seen[(srv.name, q)] = seen.get((srv.name, q), 0) + 1
        e = plan.get(q)
        if e is None:
            c.bad('query-changed', 'the upstream received a query no client sent: %s' % q.hex())
            return
        e['up'] = e.get('up', 0) + 1
        if kind.endswith('parallel') and srv.name == 'u1':
            return
        d = rng.choice([0, 0, 0.005, 0.02])
        ch = None
        if split_up and proto == 'tcp':
            ch = rng.choice([None, [1, 1], [2], [3], [1, 5, 7], [rng.randrange(1, len(e['r']) + 2)], [50] * 80])
        c.seen(kind, 'seg', repr(ch)[:12])
        reply(e['r'], delay=d, chunks=ch, gap=0.001)

    host = '::1' if kind.endswith('-6') else '127.0.0.1'
    ups = [w.upstream('u%d' % i, handle, udp=True, tcp=True, host=host) for i in range(2 if kind.endswith('parallel') else 1)]
    a = ','.join(x.addr for x in ups)
    cf = ['LogOn %s' % ('true' if rnd % 2 else 'false'), 'LogLevel 5', 'UseCache false']
    if kind in ('u-u', 'u-u-6'):
        cf += ['UDPGroup %s * off' % a]
    elif kind == 'u-u-parallel':
        cf += ['UDPGroup %s * on' % a]
    elif kind in ('t-u', 't-u-split'):
        cf += ['EnableTCPtoUDP true', 'UDPGroup %s * off' % a]
    elif kind in ('t-t', 't-t-split'):
        cf += ['UDPGroup %s ready.probe off' % a, 'TCPGroup %s * off no' % a]
    elif kind == 'u-t-parallel':
        cf += ['EnableUDPtoTCP true', 'TCPGroup %s * on no' % a]
    elif kind in ('u-t', 'u-t-6'):
        cf += ['EnableUDPtoTCP true', 'TCPGroup %s * off no' % a]
    elif kind == 'socks':
        s = w.socks('s', {('127.0.0.1', ups[0].port): ups[0]}, reply_atyp=rng.choice([1, 1, 3, 4]))
        cf += ['EnableUDPtoTCP true', 'TCPGroup %s * off %s' % (a, s.addr)]
    plan = {}
    d = c.start(w, cf, host=host)
    if short:
        d.fault(3)
    tcp_client = kind.startswith('t-')
    slow = kind.startswith(('t-t', 'u-t', 'socks'))
    cls = [w.tclient(d) if tcp_client else w.client(d) for _ in range(4)]
    total = (300 if c.thorough() else 36) if slow else (4000 if c.thorough() else 700)
    if kind == 't-u-split':
        total //= 3
    pend = {}
    state = {'n': 0}

    def on(cl, m):
        e = pend.pop((cl, m[:2]), None) if len(m) >= 2 else None
        if e is None:
            c.bad('reply-unasked', 'a client received %s without an outstanding query of that id' % m.hex()[:200])
            return
        state['n'] += 1
        if m != e['r']:
            c.bad('reply-changed', 'reply changed on the way (%s): upstream sent %s, client got %s' % (
                e['shape'], e['r'].hex(), m.hex()))
    for cl in cls:
        cl.cb = on
    split_cl = kind in ('t-u-split', 't-t-split')
    for i in range(total):
        name = 'q%d.%s.p04.test' % (i, rng.choice(['', 'x', 'y' * 60 + '.z']) or 'w')
        if rng.random() < 0.1:
            name = '.'.join(['d' * rng.randrange(1, 60) for _ in range(3)]) + '.%d.p04.test' % i
        qs, t, q = rnd_query(rng, i & 0xffff, name)
        big = rng.random() < 0.35
        rs, r = rnd_reply(rng, q, big)
        e = {'r': r, 'shape': qs + '/' + rs, 'q': q}
        plan[q] = e
        cl = rng.choice(cls)
        pend[(cl, q[:2])] = e
        if split_cl:
            ch = rng.choice([None, [1], [2], [1, 1, 1], [2, 5], [3, 1, 1, 1], [rng.randrange(1, len(q) + 2)]])
            cl.send(q, chunks=ch, gap=0.003)
            c.seen(kind, 'cseg', repr(ch)[:12])
            if ch:
                # keep the stream in order: the next query goes after these pieces
                w.run(None, 0.003 * (len(ch) + 1) + 0.002)
        else:
            cl.send(q)
        c.ev()
        c.seen(kind, qs, rs, len(r) // 256)
        if i < 1:
            c.sample({'query': q.hex(), 'reply': r.hex()[:200], 'shape': e['shape']})
        lim = 6 if slow else 24
        if len(pend) >= lim:
            w.run(lambda: len(pend) < lim // 2, 12)
        if c.violations:
            break
    w.run(lambda: not pend, 12)
    w.run(None, 0.1)
    c.count('pairs_checked', state['n'])
    if short:
        c.count('partial_transfers', d._get(11))
    c.count('reply_bytes', sum(len(e['r']) for e in plan.values()))
    if c.violations:
        return
    want = len(ups)
    over = [e for e in plan.values() if e.get('up', 0) > want]
    if over and not slow:
        # over TCP a query may be repeated after the server closed the connection
        c.bad('query-repeated', 'a query was forwarded %d times: %s' % (over[0]['up'], over[0]['q'].hex()))
    miss = [e for e in plan.values() if e.get('up', 0) == 0]
    if miss:
        c.live('query-lost', '%d queries never reached the upstream, e.g. %s (%s)' % (len(miss), miss[0]['q'].hex(), miss[0]['shape']))
    elif pend:
        e = next(iter(pend.values()))
        c.live('reply-lost', '%d replies never reached the client, e.g. %s: query %s reply %s' % (
            len(pend), e['shape'], e['q'].hex(), e['r'].hex()))
