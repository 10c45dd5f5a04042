"""P01: no bytes from any client crash, corrupt or stall the service."""
import os, random, struct
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one hostile datagram or TCP byte stream sent to the daemon built with ASan+UBSan, in one of the '
        'configurations (plain, cache, hosts+filters, fake EDNS, UDP to TCP). After every batch a well-formed query from '
        'another client must be answered correctly. Non-trivial: distinct by (configuration, mutation operator, seed kind, '
        'length class).')
ASSUMPTIONS = ['memory errors are those ASan and UBSan (bounds, overflow, null, ...; not alignment) detect']


def scenarios(tier, seed):
    k = 6 if tier == 'thorough' else 1
    out = []
    for i in range(k):
        for conf in ('plain', 'cache', 'rules', 'ap', 'u2t', 't2u'):
            out.append(('udp-%s-%d' % (conf, i), run_udp, {'conf': conf}))
        for conf in ('t2u', 'rules', 'cache'):
            out.append(('tcp-%s-%d' % (conf, i), run_tcp, {'conf': conf}))
        out.append(('flood-%d' % i, run_flood, {}))
    return out


def config(kind, u):
    c = ['LogOn true', 'LogLevel 4'] if kind == 'rules' else ['LogOn false']
    c.append('UseCache %s' % ('true' if kind in ('cache', 'rules') else 'false'))
    if kind == 'cache':
        c.append('CacheParallel true')
    if kind == 'u2t':
        c += ['EnableUDPtoTCP true', 'TCPGroup %s * off no' % u.addr]
    elif kind == 't2u':
        c += ['EnableTCPtoUDP true', 'UDPGroup %s * on' % u.addr]
    else:
        c += ['UDPGroup %s * off' % u.addr, 'TCPGroup %s * off no' % u.addr]
    if kind == 'ap':
        c.append('AP true')
    if kind == 'rules':
        c += ['DisabledType 16,99', 'DisabledDomain bad.test,*.worse.test', 'DomainStatistic true',
              'AppendHosts 1.2.3.4 host.test', 'AppendHosts 1.2.3.5 *.wild.test', 'AppendHosts ::5 six.test',
              'AppendHosts real.test alias.test', 'AppendHosts 1.2.3.9 /q[0-9]+\\.re\\.test/' if False else 'AppendHosts @@ ex.wild.test',
              'BlockIpv6WhenIpv4Exists true', 'BlockIP 9.9.9.9', 'IPSubstituting 8.8.8.8 7.7.7.7']
    return c


NAMES = ['a.test', 'host.test', 'x.wild.test', 'alias.test', 'bad.test', 'y.worse.test', 'six.test', 'ready.probe', '',
         'w' * 63 + '.test', '.'.join(['l' * 62] * 4)[:250], 'UPPER.Host.TEST', 'ex.wild.test']


def hostile(rng):
    """One hostile message: returns (operator, bytes)."""
    n = rng.choice(NAMES)
    t = rng.choice([1, 28, 5, 12, 15, 16, 2, 65, 255, 0, 65535, 41, 99])
    try:
        q = bytearray(dns.query(rng.randrange(65536), n, t, edns=rng.choice([None, None, 1232, 65535])))
    except Exception:
        q = bytearray(dns.query(rng.randrange(65536), 'a.test', t))
    op = rng.choice(['random', 'truncate', 'extend', 'flip', 'counts', 'pointer', 'selfpointer', 'chain', 'label', 'rdlen',
                     'response', 'class', 'nul', 'dots', 'twoq', 'binary', 'long', 'reflected', 'ptrpast', 'addl', 'hdr'])
    if op == 'random':
        q = bytearray(rng.randbytes(rng.choice([0, 1, 2, 11, 12, 13, 16, 17, 40, 512, 1500, 3500])))
        if len(q) >= 12 and rng.random() < 0.7:
            q[4:12] = b'\0\1' + bytes([0, rng.choice([0, 1])] * 3)
    elif op == 'truncate':
        q = q[:rng.randrange(len(q) + 1)]
    elif op == 'extend':
        q += rng.randbytes(rng.choice([1, 2, 11, 100, 3000]))
    elif op == 'flip':
        for _ in range(rng.randrange(1, 6)):
            q[rng.randrange(len(q))] = rng.choice([0, 1, 0x3f, 0x40, 0x80, 0xc0, 0xff, rng.randrange(256)])
    elif op == 'counts':
        for o in (4, 6, 8, 10):
            if rng.random() < 0.6:
                q[o:o + 2] = struct.pack('!H', rng.choice([0, 1, 2, 255, 65535, rng.randrange(65536)]))
    elif op in ('pointer', 'selfpointer', 'chain', 'ptrpast'):
        if op == 'selfpointer':
            nm = b'\xc0\x0c'
        elif op == 'ptrpast':
            nm = struct.pack('!H', 0xc000 | rng.choice([0x3fff, 18, 19, 20, 21, 100]))
        elif op == 'chain':
            k = rng.choice([2, 50, 130, 300])
            nm = b''.join(struct.pack('!H', 0xc000 | (12 + 2 * (j + 1))) for j in range(k))
            nm += rng.choice([b'\0', b'\xc0\x0c', b'\1a\0'])
        else:
            nm = b'\3abc' + struct.pack('!H', 0xc000 | rng.choice([0, 1, 2, 4, 11, 12, 13, 14, 16]))
        q = bytearray(q[:4] + b'\0\1\0\0\0\0\0\0' + nm + struct.pack('!HH', t, 1))
        if rng.random() < 0.3:
            q = q[:12 + len(nm)]
    elif op == 'label':
        k = rng.choice([1, 3, 63, 64, 100, 127, 128, 191])
        nm = b''
        for _ in range(rng.choice([1, 2, 5, 30, 127, 130])):
            nm += bytes([k]) + rng.randbytes(k)
        nm += rng.choice([b'\0', b''])
        q = bytearray(q[:4] + b'\0\1\0\0\0\0\0\0' + nm[:3000] + struct.pack('!HH', t, 1))
    elif op == 'rdlen':
        m = bytearray(dns.query(1, n if len(n) < 100 else 'a.test', t))
        m[10:12] = b'\0\1'
        m += b'\0' + struct.pack('!HHIH', rng.choice([41, 1, 5, 16]), 1232, 0, rng.choice([0, 1, 4, 100, 65535])) + \
            rng.randbytes(rng.choice([0, 1, 3, 4]))
        q = m
    elif op == 'response':
        q[2] |= 0x80
        if rng.random() < 0.5:
            q = bytearray(wl.std_answer(bytes(q)))
    elif op == 'class':
        q = bytearray(dns.query(rng.randrange(65536), 'a.test', t, k=rng.choice([0, 3, 4, 254, 255, 65535])))
    elif op == 'nul':
        q = bytearray(q[:4] + b'\0\1\0\0\0\0\0\0' + b'\4a\0b\0\4test\0' + struct.pack('!HH', t, 1))
    elif op == 'dots':
        lab = rng.choice([b'a.b', b'.', b'..', b' ', b'%s%n', b'*', b'?', b'\\', b'[', b'a b 1 1', b'\xff\xfe', b'"<>&'])
        q = bytearray(q[:4] + b'\0\1\0\0\0\0\0\0' + bytes([len(lab)]) + lab + b'\4test\0' + struct.pack('!HH', t, 1))
    elif op == 'twoq':
        q[4:6] = b'\0\2'
        q += dns.question(rng.choice(['host.test', 'bad.test', 'z.test']), t)
    elif op == 'binary':
        q = bytearray(q[:12] + rng.randbytes(rng.randrange(1, 300)))
    elif op == 'long':
        tot = rng.choice([253, 254, 255, 256, 300])
        nm = b''
        while len(nm) + 1 < tot:
            k = min(63, tot - len(nm) - 2)
            if k <= 0:
                break
            nm += bytes([k]) + b'q' * k
        q = bytearray(q[:4] + b'\0\1\0\0\0\0\0\0' + nm + b'\0' + struct.pack('!HH', t, 1))
    elif op == 'reflected':
        q[4:12] = struct.pack('!HHHH', 1, rng.choice([1, 3]), rng.choice([0, 1]), rng.choice([0, 2]))
        for _ in range(4):
            q += rng.choice([b'\xc0\x0c', b'\0', b'\xc0' + bytes([rng.randrange(256)])]) + \
                struct.pack('!HHIH', rng.choice([1, 5, 28, 16, 6, 15]), 1, 5, rng.choice([0, 2, 4, 16])) + \
                rng.randbytes(rng.choice([0, 2, 4, 16]))
    elif op == 'addl':
        q[10:12] = b'\0\1'
        q += b'\0' + struct.pack('!HHIH', 1, 1, 5, 4) + b'\1\2\3\4'
    elif op == 'hdr':
        q = q[:12]
        q[2:4] = rng.randbytes(2)
    return op, bytes(q)


def expect_good(c, d, w, what, tcp=False):
    """Another client's well-formed query is answered correctly."""
    led = wl.Ledger(c, wl.std_content())
    cl = w.tclient(d) if tcp else w.client(d)
    good = 'g%d.good.example' % c.rng.randrange(1 << 30)
    for attempt in range(6):
        led.send(cl, dns.query(c.rng.randrange(65536), good, 1))
        if w.run(lambda: led.done > 0, 4):
            break
        if not d.alive():
            return
        good = 'g%d.good.example' % c.rng.randrange(1 << 30)
    cl.close()
    if not led.done:
        c.live('stopped-serving', 'a well-formed %s query is no longer answered after: %s' % ('TCP' if tcp else 'UDP', what))


def run_udp(c, conf):
    w = c.world()
    u = w.upstream('u', wl.std_handler(), udp=True, tcp=True)
    d = c.start(w, config(conf, u))
    cl = [w.client(d) for _ in range(3)]
    total = (30000 if c.thorough() else 3000) // (6 if conf == 'u2t' else 1)
    sent = []
    for i in range(total):
        op, m = hostile(c.rng)
        sent.append((op, m))
        try:
            cl[i % 3].send(m)
        except OSError:
            pass
        c.ev()
        c.count('hostile_datagrams')
        c.seen('udp', conf, op, min(len(m) // 64, 8), m[2] >> 7 if len(m) > 2 else 2)
        if i < 2:
            c.sample({'op': op, 'hex': m.hex()[:120]})
        if i % 8 == 7:
            w.run(None, 0.002)
        if i % 150 == 149 or i == total - 1:
            expect_good(c, d, w, 'hostile datagrams, last ones %r' % [(o, x.hex()[:200]) for o, x in sent[-8:]])
            c.count('service_probes')
            if not d.alive() or c.violations:
                break
    d.advance(30)
    w.run(None, 0.2)
    expect_good(c, d, w, 'hostile datagrams and a time-out sweep')


def run_tcp(c, conf):
    w = c.world()
    u = w.upstream('u', wl.std_handler(), udp=True, tcp=True)
    d = c.start(w, config(conf, u))
    rng = c.rng
    total = 3000 if c.thorough() else 300
    keep = []
    for i in range(total):
        try:
            t = w.tclient(d)
        except OSError:
            if d.alive():
                c.live('stopped-serving', 'TCP connections are refused after %d hostile streams' % i)
            break
        op, m = hostile(rng)
        frame = struct.pack('!H', len(m)) + m
        mode = rng.choice(['whole', 'lenlie', 'half', 'huge', 'zero', 'one', 'pipeline', 'split', 'rst', 'garbage', 'idle'])
        if mode == 'lenlie':
            frame = struct.pack('!H', rng.choice([0, 1, 11, 12, len(m) + 1, max(0, len(m) - 1), 4096, 3600])) + m
        elif mode == 'half':
            frame = frame[:rng.randrange(1, len(frame))]
        elif mode == 'huge':
            frame = b'\xff\xff' + m + rng.randbytes(rng.choice([0, 5000]))
        elif mode == 'zero':
            frame = b'\0\0' * rng.choice([1, 5]) + frame
        elif mode == 'one':
            frame = frame[:1]
        elif mode == 'pipeline':
            for _ in range(rng.randrange(1, 12)):
                x = hostile(rng)[1]
                frame += struct.pack('!H', len(x)) + x
        elif mode == 'garbage':
            frame = rng.randbytes(rng.randrange(1, 2000))
        if mode == 'split':
            t.send_raw(frame, chunks=[rng.randrange(1, 9) for _ in range(6)], gap=0.001)
        elif mode != 'idle':
            t.send_raw(frame)
        c.ev()
        c.count('hostile_streams')
        c.seen('tcp', conf, mode, op)
        if i < 2:
            c.sample({'mode': mode, 'op': op, 'hex': frame.hex()[:120]})
        if mode == 'rst':
            t.close(rst=True)
        elif rng.random() < 0.6:
            w.run(None, 0.002)
            t.close()
        else:
            keep.append(t)
            if len(keep) > 40:
                keep.pop(0).close()
        if i % 25 == 24 or i == total - 1:
            w.run(None, 0.02)
            expect_good(c, d, w, 'hostile TCP streams, last: %s/%s %s' % (mode, op, frame.hex()[:200]), tcp=True)
            expect_good(c, d, w, 'hostile TCP streams, last: %s/%s %s' % (mode, op, frame.hex()[:200]))
            c.count('service_probes', 2)
            if not d.alive() or c.violations:
                break


def run_flood(c):
    """More connections than descriptors a select set holds, slow readers and idle clients."""
    w = c.world()

    def handle(srv, q, proto, reply):
        try:
            n = wl.qinfo(q)[1]
            if n.startswith('big'):
                a = dns.response(q, [dns.rr(dns.ptr(12), 16, 60, b'\xff' + b'z' * 255) for _ in range(11)])
            else:
                a = wl.std_answer(q)
        except Exception:
            return
        reply(a)
    u = w.upstream('u', handle, udp=True, tcp=True)
    d = c.start(w, ['UseCache false', 'LogOn false', 'EnableTCPtoUDP true', 'UDPGroup %s * off' % u.addr])
    idle = []
    for i in range(1100):
        try:
            idle.append(w.tclient(d))
        except OSError:
            break
        c.ev()
        if i % 6 == 5:
            w.run(None, 0.004)
    c.count('idle_connections', len(idle))
    c.seen('flood', 'idle', len(idle) // 100)
    w.run(None, 0.2)
    expect_good(c, d, w, '%d idle TCP connections' % len(idle))
    for t in idle:
        t.close()
    w.run(None, 0.3)
    for k in range(6):
        d.advance(2)
        w.run(None, 0.05)
    expect_good(c, d, w, 'closing %d idle TCP connections' % len(idle), tcp=True)
    # a client that never reads: its responses must not stall the others
    s = w.tclient(d)
    w.loop.unreg(s.s)
    for i in range(400 if not c.thorough() else 4000):
        s.send(dns.query(i, 'big%d.test' % i, 16))
        if i % 20 == 0:
            w.run(None, 0.005)
        c.ev()
    c.count('unread_responses', i)
    w.run(None, 0.3)
    c.seen('flood', 'noread')
    expect_good(c, d, w, 'a TCP client that never reads its responses')
    expect_good(c, d, w, 'a TCP client that never reads its responses', tcp=True)
