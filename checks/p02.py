"""P02: no bytes from an upstream server or proxy crash, corrupt or stall the service."""
import random, struct
import dns, wl, p01

LEVEL = 'exploration'
RULE = ('A case is one hostile reply (or TCP/SOCKS5 byte stream) given by an upstream to a query the daemon (ASan+UBSan) '
        'really forwarded, so that it passes the identifier and question match and reaches the parser, the filters, the '
        'cache and the redirect merger. After every batch a query answered honestly must still be served. Non-trivial: '
        'distinct by (configuration, mutation operator, record type, transport).')
ASSUMPTIONS = p01.ASSUMPTIONS


def scenarios(tier, seed):
    k = 6 if tier == 'thorough' else 1
    out = []
    for i in range(k):
        for conf in ('plain', 'cache', 'filters', 'ap', 'redirect', 'parallel', 'stat'):
            out.append(('udp-%s-%d' % (conf, i), run_udp, {'conf': conf}))
        for conf in ('plain', 'cache', 'socks', 'socks-evil'):
            out.append(('tcp-%s-%d' % (conf, i), run_tcp, {'conf': conf}))
    return out


TY = [1, 28, 5, 2, 12, 15, 16, 65, 6, 33, 257, 13, 29, 99, 255, 0]


def hostile_reply(rng, q):
    """(operator, bytes): a mutated answer to q; most keep id and question."""
    labels, n, t, k, e = wl.qinfo(q)
    op = rng.choice(['badlen', 'ptrloop', 'ptrpast', 'shortrr', 'count', 'trunc', 'flip', 'random', 'manyrr', 'hugename',
                     'txtlen', 'mxshort', 'noq', 'cnameloop', 'twoq', 'tail', 'zero', 'rootcname', 'longcname', 'bigrr', 'ok',
                     'soa', 'nulname', 'labelfwd', 'midptr'])
    rrs = []
    p = dns.ptr(12)

    def RR(nm, ty, rd, ln=None, ttl=None):
        ttl = ttl if ttl is not None else rng.choice([0, 1, 300, 0x7fffffff, 0xffffffff, 0x80000000])
        return nm + struct.pack('!HHIH', ty, rng.choice([1, 1, 1, 3, 255]), ttl, len(rd) if ln is None else ln) + rd
    for _ in range(rng.choice([1, 1, 2, 4])):
        ty = rng.choice([t, t] + TY)
        rd = wl.rdata_for(n, ty)
        if ty in (1, 28) and rng.random() < 0.3:
            rd = rng.choice([b'\x0a\1\1\1', b'\xc8\2\2\2', b'\x09\x09\x09\x09', b'\0' * 15 + b'\1'])
        nm = p
        if op == 'badlen':
            rrs.append(RR(nm, ty, rd, rng.choice([0, 1, 2, 3, 5, 15, 17, 255, 256, 4000, 65535])))
        elif op == 'ptrloop':
            off = e + sum(len(x) for x in rrs)
            nm = rng.choice([struct.pack('!H', 0xc000 | off), b'\1a' + struct.pack('!H', 0xc000 | off),
                             b'\x3f' + b'a' * 63 + struct.pack('!H', 0xc000 | off)])
            rrs.append(RR(nm, ty, rd))
            o2 = off + len(nm) + 10
            rrs.append(RR(p, rng.choice([5, 2, 12]), b'\1b' + struct.pack('!H', 0xc000 | (o2 + 12 + len(rd)))))
        elif op == 'ptrpast':
            nm = struct.pack('!H', 0xc000 | rng.choice([0x3fff, e + 500, e, e + 1]))
            rrs.append(RR(nm, ty, rd))
            rrs.append(RR(p, rng.choice([5, 2, 12, 15]), rng.choice([b'', b'\0\1']) + nm))
        elif op == 'shortrr':
            rrs.append(RR(nm, rng.choice([1, 28, 5, 15, 16, 65, 6, 33]), rng.randbytes(rng.choice([0, 1, 2, 3]))))
        elif op == 'hugename':
            nm = b''.join(bytes([63]) + b'h' * 63 for _ in range(rng.choice([3, 4, 5, 10]))) + b'\0'
            rrs.append(RR(rng.choice([nm, p]), rng.choice([5, 2, 12, ty]), nm))
        elif op == 'txtlen':
            rrs.append(RR(nm, 16, bytes([rng.choice([0, 5, 200, 255])]) + rng.randbytes(rng.choice([0, 4, 199, 255]))))
        elif op == 'mxshort':
            rrs.append(RR(nm, 15, rng.choice([b'', b'\0', b'\0\1', b'\0\1\xc0', b'\0\1\5ab'])))
        elif op == 'cnameloop':
            rrs.append(RR(nm, 5, rng.choice([dns.enc_name(n), p, dns.enc_name('x.' + n) if len(n) < 200 else p])))
        elif op == 'rootcname':
            rrs.append(RR(rng.choice([p, b'\0']), rng.choice([5, 2, 12, 15]), b'\0'))
        elif op == 'longcname':
            nm2 = b''.join(bytes([60]) + b'c' * 60 for _ in range(rng.choice([1, 3, 4]))) + rng.choice([b'\0', b'\4test\0'])
            rrs.append(RR(nm, 5, nm2))
        elif op == 'bigrr':
            rrs.append(RR(nm, rng.choice([1, 16, 65, 28, 257]), rng.randbytes(rng.choice([400, 470, 500, 512, 513, 1500, 3000]))))
        elif op == 'soa':
            rrs.append(RR(nm, 6, rng.choice([b'', b'\0', b'\0\0' + b'x' * 19, b'\0\0' + b'x' * 20, p + p + b'x' * 3])))
        elif op == 'nulname':
            rrs.append(RR(b'\3a\0b\0', ty, rd))
            rrs.append(RR(p, rng.choice([5, 2, 15]), b'\3\0\0\0\1.\0'))
        elif op == 'labelfwd':
            rrs.append(RR(bytes([rng.choice([64, 100, 128, 191])]) + b'a' * 30, ty, rd))
        elif op == 'midptr':
            rrs.append(RR(struct.pack('!H', 0xc000 | rng.randrange(0, e + 20)), rng.choice([5, 2, 12, ty]),
                          struct.pack('!H', 0xc000 | rng.randrange(0, e + 40))))
        else:
            rrs.append(RR(nm, ty, rd))
    if op == 'manyrr':
        rrs = [RR(p, t, wl.rdata_for(n, t, i)) for i in range(rng.choice([30, 60, 100]))]
    cnt = [1, len(rrs), 0, 0]
    body = b''.join(rrs)
    qs = q[12:e]
    if op == 'count':
        cnt = [1, rng.choice([0, 1, 5, 255, 65535]), rng.choice([0, 1, 65535]), rng.choice([0, 1, 65535])]
    elif op == 'noq':
        cnt[0] = 0
        qs = b''
    elif op == 'twoq':
        cnt[0] = 2
        qs = qs + qs
    elif rng.random() < 0.3:
        # spread over the sections
        cnt = [1, 0, 0, 0]
        for _ in rrs:
            cnt[rng.choice([1, 2, 3])] += 1
    flags = rng.choice([0x8180, 0x8180, 0x8580, 0x8183, 0x8182, 0x8380, 0x0100, rng.randrange(65536)])
    m = q[:2] + struct.pack('!H', flags) + struct.pack('!HHHH', *cnt) + qs + body
    if rng.random() < 0.3:
        m += dns.opt(1232)
        m = m[:10] + struct.pack('!H', min(65535, struct.unpack('!H', m[10:12])[0] + 1)) + m[12:]
    if op == 'trunc':
        m = m[:rng.randrange(2, len(m))]
    elif op == 'flip':
        b = bytearray(m)
        for _ in range(rng.randrange(1, 8)):
            b[rng.randrange(2, len(b))] = rng.choice([0, 0x3f, 0x40, 0xc0, 0xff, rng.randrange(256)])
        m = bytes(b)
    elif op == 'random':
        m = q[:2] + rng.randbytes(rng.choice([0, 3, 10, 30, 500, 3500]))
    elif op == 'tail':
        m += rng.randbytes(rng.choice([1, 9, 500, 2000]))
    elif op == 'zero':
        m = m[:rng.choice([0, 1, 2, 11, 12])]
    return op, m[:3600]


def handler(c, conf, state):
    rng = c.rng

    def handle(srv, q, proto, reply):
        try:
            labels, n, t, k, e = wl.qinfo(q)
        except Exception:
            return
        if state.get('honest') or n.endswith('good.example') or n.endswith('ready.probe') or not n:
            reply(wl.std_answer(q))
            return
        state['asked'] += 1
        op, m = hostile_reply(rng, q)
        state['last'] = (state.get('last', []) + [(op, m.hex()[:400])])[-6:]
        c.count('hostile_replies')
        c.seen(conf, proto, op, t)
        if proto == 'udp':
            reply(m)
            if rng.random() < 0.2:
                reply(hostile_reply(rng, q)[1])
            return
        mode = rng.choice(['whole', 'whole', 'lenlie', 'close', 'split', 'huge', 'zerolen', 'extra', 'half'])
        c.seen(conf, 'tcpmode', mode)
        if mode == 'whole':
            reply(m)
        elif mode == 'lenlie':
            reply(struct.pack('!H', rng.choice([0, 1, 11, 12, len(m) // 2])) + m, raw=True)
        elif mode == 'close':
            reply(struct.pack('!H', len(m) + 5) + m, raw=True, close=True)
        elif mode == 'split':
            reply(m, chunks=[1, 1, 1, 5, 20], gap=0.002)
        elif mode == 'huge':
            reply(b'\xff\xff' + m, raw=True, close=True)
        elif mode == 'zerolen':
            reply(b'\0\0', raw=True)
        elif mode == 'extra':
            reply(struct.pack('!H', len(m)) + m + struct.pack('!H', len(m)) + m + b'\7', raw=True, close=rng.random() < 0.5)
        elif mode == 'half':
            reply(struct.pack('!H', len(m))[:1], raw=True, close=True)
    return handle


def run_udp(c, conf):
    w = c.world()
    state = {'asked': 0}
    hd = handler(c, conf, state)
    u = w.upstream('u', hd, udp=True)
    ups = [u]
    if conf == 'parallel':
        ups.append(w.upstream('u2', hd, udp=True))
    cf = ['LogOn %s' % ('true' if conf in ('filters', 'stat') else 'false'), 'LogLevel 4',
          'UseCache %s' % ('true' if conf in ('cache', 'filters', 'parallel') else 'false'),
          'UDPGroup %s * %s' % (','.join(x.addr for x in ups), 'on' if conf == 'parallel' else 'off')]
    if conf == 'cache':
        cf += ['CacheParallel true']
    if conf == 'filters':
        cf += ['BlockIP 9.9.9.9,10.0.0.0/8,::1', 'IPSubstituting 200.0.0.0/8 7.7.7.7', 'BlockNegativeResponse true',
               'CacheControl a*.test 50', 'MultipleTTL 3']
    if conf == 'ap':
        cf.append('AP true')
    if conf == 'stat':
        cf.append('DomainStatistic true')
    if conf == 'redirect':
        for i in range(20):
            cf.append('AppendHosts tgt%d.test ali%d.test' % (i, i))
    d = c.start(w, cf)
    cl = w.client(d)
    total = 20000 if c.thorough() else 2000
    for i in range(total):
        n = 'ali%d.test' % c.rng.randrange(20) if conf == 'redirect' else 'a%d.test' % (
            c.rng.randrange(40) if conf == 'cache' else i)
        t = c.rng.choice([1, 28] if conf == 'redirect' else [1, 28, 5, 2, 12, 15, 16, 65])
        cl.send(dns.query(c.rng.randrange(65536), n, t, edns=c.rng.choice([None, 1232])))
        c.ev()
        if i % 6 == 5:
            w.run(None, 0.0015)
        if i % 120 == 119 or i == total - 1:
            w.run(None, 0.03)
            p01.expect_good(c, d, w, 'hostile replies, last %r' % state.get('last'))
            c.count('service_probes')
            if not d.alive() or c.violations:
                return
        if i % 500 == 499:
            d.advance(15)
    c.sample({'last': state.get('last')})
    if state['asked'] < total // 10:
        c.live('stopped-serving', 'only %d of %d queries reached the upstream' % (state['asked'], total))


def run_tcp(c, conf):
    w = c.world()
    state = {'asked': 0}
    u = w.upstream('u', handler(c, conf, state), udp=True, tcp=True)
    g = w.upstream('g', wl.std_handler(), udp=True, tcp=True)
    proxy = 'no'
    if conf.startswith('socks'):
        s = w.socks('s', {('127.0.0.1', u.port): u, ('127.0.0.1', g.port): g})
        proxy = s.addr
        if conf == 'socks-evil':
            evil(c, s, state)
    d = c.start(w, ['LogOn false', 'UseCache %s' % ('true' if conf == 'cache' else 'false'), 'EnableUDPtoTCP true',
                    'UDPGroup %s good.example,ready.probe off' % g.addr, 'TCPGroup %s * off %s' % (u.addr, proxy)])
    cl = w.client(d)
    total = 400 if c.thorough() else 40
    for i in range(total):
        cl.send(dns.query(c.rng.randrange(65536), 'a%d.test' % i, c.rng.choice([1, 28, 5, 2, 15, 16, 65])))
        c.ev()
        w.run(None, 0.25 if conf != 'socks-evil' else 0.15)
        if i % 20 == 19:
            d.advance(3)
        if i % 20 == 19 or i == total - 1:
            p01.expect_good(c, d, w, 'hostile TCP replies, last %r' % state.get('last'))
            c.count('service_probes')
            if not d.alive() or c.violations:
                return
    # the hostile group itself recovers once its server behaves
    state['honest'] = True
    got = []
    cl2 = w.client(d)
    led = wl.Ledger(c, wl.std_content())
    for attempt in range(10):
        led.send(cl2, dns.query(attempt, 'r%d.recover.test' % attempt, 1))
        if w.run(lambda: led.done > 0, 3):
            break
        d.advance(3)
    c.count('recovery_probes')
    if not led.done:
        c.live('group-dead', 'the server of the TCP group behaves again but its queries are no longer answered; before: %r'
               % state.get('last'))


def evil(c, s, state):
    """A proxy that breaks the SOCKS5 exchange in many ways."""
    rng = c.rng

    honest = s._on_conn

    def on_conn(sock, st):
        if state.get('honest') and not st.get('evil'):
            return honest(sock, st)
        try:
            x = sock.recv(65535)
        except OSError:
            x = b''
        if not x:
            s.close_conn(sock)
            return
        st['evil'] = True
        st['n'] = st.get('n', 0) + 1
        c.count('hostile_replies')
        mode = rng.choice(['ok', 'ok', 'short', 'wrongver', 'noauth', 'close', 'junk', 'slow', 'dom', 'domlong', 'atyp', 'half'])
        c.seen('socks', st['n'], mode)
        if mode == 'close':
            s.close_conn(sock)
        elif st['n'] == 1:
            s._tsend(sock, {'ok': b'\5\0', 'short': b'\5', 'wrongver': b'\4\0', 'noauth': b'\5\xff', 'junk': rng.randbytes(50)
                            }.get(mode, b'\5\0'))
            if mode == 'short':
                s.close_conn(sock)
        elif st['n'] == 2:
            m = {'ok': b'\5\0\0\1' + b'\0' * 6, 'short': b'\5\0\0', 'dom': b'\5\0\0\3\5abcde\0\0',
                 'domlong': b'\5\0\0\3\xff' + b'z' * 257, 'atyp': b'\5\0\0\x77' + b'q' * 40, 'half': b'\5\0\0\4' + b'\0' * 5,
                 'junk': rng.randbytes(60), 'noauth': b'\5\2\0\1' + b'\0' * 6}.get(mode, b'\5\0\0\1' + b'\0' * 6)
            s._tsend(sock, m)
            if mode in ('short', 'half'):
                s.close_conn(sock)
        else:
            s._tsend(sock, rng.randbytes(rng.randrange(0, 60)))
            if rng.random() < 0.5:
                s.close_conn(sock)
    s._on_conn = on_conn
