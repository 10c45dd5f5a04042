"""P05: a failing server harms only the queries that need it, and only while it fails."""
import resource, socket, struct
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one query that has a working server: it must be answered correctly, without being sent again by the client '
        '(fail-over: within one time-out and sweep per dead server ahead of a living one). Non-trivial: distinct by (scenario, kind of '
        'failure, transport, which servers were failing).')
ASSUMPTIONS = ['a server not reachable at all is one that refuses connections; dropped SYN packets cannot be produced here',
               'delivery is judged on the loopback network; a missing answer must repeat in an undisturbed rerun to count',
               'time-outs of queries and connections pass on a virtual clock']
WORKERS = 5

UDPBAD = ('silent', 'garbage', 'wrongid')
TCPBAD = ('refuse', 'closeaccept', 'silent', 'rst', 'half', 'halfbody', 'garbage', 'toolarge')


def scenarios(tier, seed):
    k = 6 if tier == 'thorough' else 1
    out = []
    for i in range(k):
        out.append(('isolate-udp-%d' % i, isolate, {'bad': UDPBAD, 'rnd': i}))
        for m in TCPBAD:
            out.append(('isolate-%s-%d' % (m, i), isolate, {'bad': (m,), 'rnd': i}))
        out.append(('isolate-socks-%d' % i, isolate, {'bad': ('socks',), 'rnd': i}))
        for j in range(3):
            out.append(('failover-%d' % (3 * i + j), failover, {'rnd': i}))
        for j in range(2):
            out.append(('parallel-udp-%d' % (2 * i + j), parallel, {'tcp': False, 'rnd': i}))
            out.append(('parallel-tcp-%d' % (2 * i + j), parallel, {'tcp': True, 'rnd': i}))
            out.append(('anytcp-%d' % (2 * i + j), anytcp, {'rnd': i}))
        out.append(('recover-%d' % i, recover, {'rnd': i}))
        for how in ('fin', 'rst', 'finquery', 'rstquery'):
            out.append(('keepalive-%s-%d' % (how, i), keepalive, {'how': how, 'rnd': i}))
        for j in range(3):
            out.append(('deaf-%d' % (3 * i + j), deaf, {'rnd': j}))
        out.append(('exhaust-udp-%d' % i, exhaust, {'tcp': False, 'rnd': i}))
        out.append(('exhaust-tcp-%d' % i, exhaust, {'tcp': True, 'rnd': i}))
    return out


# -- servers that can fail --
def flaky(w, name, salt, rng, mode='ok', udp=True, tcp=True):
    def handle(srv, q, proto, reply):
        m = srv.mode
        srv.got = getattr(srv, 'got', 0) + 1
        if m in ('ok', 'closeafter'):
            try:
                reply(wl.std_answer(q, salt), close=(m == 'closeafter'))
            except (dns.Bad, struct.error, IndexError):
                pass
        elif m == 'silent':
            pass
        elif m == 'garbage':
            reply(bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 12, 40]))))
        elif m == 'wrongid':
            reply(struct.pack('!H', (struct.unpack('!H', q[:2])[0] + 1) & 0xffff) + wl.std_answer(q, salt)[2:])
        elif m == 'rst':
            reply.conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            srv.close_conn(reply.conn)
        elif m == 'half':
            reply(b'\0', raw=True)
        elif m == 'toolarge':
            reply(b'\xff\xff' + bytes(rng.randrange(256) for _ in range(rng.choice([0, 50, 9000]))), raw=True)
        elif m == 'blocked':
            # well-formed, but for another question
            reply(wl.std_answer(q[:12] + b'\1z' + q[12:], salt))
        elif m == 'halfbody':
            reply(struct.pack('!H', 200) + b'abc', raw=True)
    u = w.upstream(name, handle, udp=udp, tcp=tcp)
    u.mode = 'ok'
    setmode(w, u, mode)
    return u


def setmode(w, u, mode):
    u.mode = mode
    u.accept = mode != 'closeaccept'
    if mode == 'refuse':
        for c in list(u.conns):
            u.close_conn(c)
        if u.tsock is not None:
            w.loop.unreg(u.tsock)
            u.tsock.close()
            u.tsock = None
    elif u.tsock is None:
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind((u.host, u.port))
        s.listen(128)
        s.setblocking(False)
        u.tsock = s
        w.loop.reg(s, u._on_accept)


class Asker:
    """Sends single queries and judges their answers."""
    def __init__(self, c, w, d):
        self.c, self.w, self.d, self.seq = c, w, d, 0
        self.cl = w.client(d)
        self.tcl = None

    def ask(self, dom, salts=(0,), timeout=6.0, tcp=False):
        """Seconds until the answer, or None."""
        self.seq += 1
        n = 'n%d.%s' % (self.seq, dom)
        t = self.c.rng.choice([1, 28, 16])
        q = dns.query((self.seq * 7 + 13) & 0xffff, n, t)
        if tcp:
            if self.tcl is None or self.tcl.closed:
                self.tcl = self.w.tclient(self.d)
            cl = self.tcl
        else:
            cl = self.cl
        k = len(cl.rx)
        t0 = self.w.loop.now()
        cl.send(q)
        self.c.ev()
        self.w.loop.run(lambda: any(m[:2] == q[:2] for m in cl.msgs()[k:]), timeout)
        for m in cl.msgs()[k:]:
            if m[:2] == q[:2]:
                r = dns.parse(m)
                e = wl.std_content(salts)(n, t, r)
                if e:
                    self.c.bad('wrong-answer', 'query %s type %d: %s' % (n, t, e))
                return self.w.loop.now() - t0
        return None


def isolate(c, bad, rnd):
    """Traffic of failing groups next to working ones."""
    w, rng = c.world(), c.rng
    ok = flaky(w, 'ok', 0, rng)
    conf = ['UDPGroup %s * off' % ok.addr, 'TCPGroup %s okt.test off no' % ok.addr, 'EnableUDPtoTCP true', 'EnableTCPtoUDP true',
            'UseCache false', 'LogOn false']
    doms = []
    for i, m in enumerate(bad):
        u = flaky(w, 'bad%d' % i, 9, rng, mode=m if m != 'socks' else 'ok')
        dom = 'bad%d.test' % i
        if m == 'socks':
            px = [w.upstream('px%d' % k, None, udp=False, tcp=True) for k in range(2)]
            px[0]._on_conn = lambda conn, st: conn.recv(4096) or px[0].close_conn(conn)      # takes, never answers
            px[1].accept = False
            for k in range(2):
                conf.append('TCPGroup %s s%d.%s off %s' % (u.addr, k, dom, px[k].addr))
                doms.append('s%d.%s' % (k, dom))
        elif bad is UDPBAD:
            conf.append('UDPGroup %s %s %s' % (u.addr, dom, rng.choice(['on', 'off'])))
            doms.append(dom)
        else:
            conf.append('TCPGroup %s %s %s no' % (u.addr, dom, rng.choice(['on', 'off'])))
            doms.append(dom)
    d = c.start(w, conf)
    a = Asker(c, w, d)
    bcl = [w.client(d) for _ in range(4)]
    n = [0]

    def flood(k):
        for _ in range(k):
            n[0] += 1
            cl = rng.choice(bcl)
            cl.send(dns.query(n[0] & 0xffff, 'b%d.%s' % (n[0], rng.choice(doms)), 1))
    worst = 0
    for i in range(60 if c.thorough() else 14):
        flood(rng.choice([1, 5, 40]))
        if rng.random() < 0.3:
            d.advance(rng.choice([3, 12]))
        for dom, tcp in (('x.test', False), ('okt.test', False), ('x.test', True)):
            x = a.ask(dom, tcp=tcp, timeout=4)
            c.seen('isolate', bad, dom, tcp)
            if x is None:
                c.live('isolation', 'a query for %s (%s) with a working server was not answered within 4 s while the %s servers of other groups fail'
                       % (dom, 'tcp' if tcp else 'udp', '/'.join(bad)))
                return
            worst = max(worst, x)
    for cl in bcl:
        if cl.rx and bad[0] not in ('socks',):
            c.bad('invented', 'a client got an answer for a group whose servers never answered: %s' % cl.rx[0][1].hex())
    c.count('failing_queries', n[0])
    c.alive_check(d, 'failing servers')
    c.sample({'bad': bad, 'slowest_ms': int(worst * 1000)})


def failover(c, rnd):
    """A UDP group tried in turn: living servers are reached after the dead ones timed out."""
    w, rng = c.world(), c.rng
    n = rng.choice([2, 3, 4])
    ups = [flaky(w, 'u%d' % i, i, rng) for i in range(n)]
    d = c.start(w, ['UDPGroup %s * off' % ','.join(u.addr for u in ups), 'UseCache false', 'LogOn false'])
    a = Asker(c, w, d)
    for rnd_ in range(16 if c.thorough() else 5):
        alive = set(rng.sample(range(n), rng.choice([1, 1, n - 1])))
        for i, u in enumerate(ups):
            setmode(w, u, 'ok' if i in alive else rng.choice(['silent', 'silent', 'wrongid']))
        # each round of time-outs must bring the next server
        many = rng.choice([1, 1, 12])
        for k in range(2 * n + 2):
            x = a.ask('f.test', salts=sorted(alive), timeout=0.5)
            if x is not None:
                break
            for _ in range(many - 1):
                a.ask('f.test', salts=sorted(alive), timeout=0.01)
            d.advance(14)
            w.run(None, 0.25)
        c.seen('failover', n, tuple(sorted(alive)), many, k)
        c.count('rounds_until_living_%d' % k)
        if x is None:
            c.live('failover', 'servers %r of %d answer, but after %d rounds of time-outs the group still did not reach one' % (sorted(alive), n, 2 * n + 2))
            return
        # and it stays there
        for _ in range(4):
            if a.ask('f.test', salts=sorted(alive), timeout=3) is None:
                c.live('failover-stay', 'a query was not answered although the group had found a living server')
                return
    c.alive_check(d, 'fail-over')
    c.sample({'servers': n})


def parallel(c, tcp, rnd):
    """Any one server of a parallel group is enough."""
    w, rng = c.world(), c.rng
    n = rng.choice([2, 3])
    ups = [flaky(w, 'u%d' % i, i, rng) for i in range(n)]
    bad = ('refuse', 'closeaccept', 'silent', 'rst', 'garbage') if tcp else UDPBAD
    conf = ['%sGroup %s * on%s' % ('TCP' if tcp else 'UDP', ','.join(u.addr for u in ups), ' no' if tcp else ''), 'EnableUDPtoTCP true',
            'UseCache false', 'LogOn false', 'TCPKeepAlive %d' % rng.choice([2, 30])]
    d = c.start(w, conf)
    a = Asker(c, w, d)
    for k in range(60 if c.thorough() else 12):
        ok = set(rng.sample(range(n), rng.choice([1, 1, n - 1])))
        for i, u in enumerate(ups):
            setmode(w, u, 'ok' if i in ok else rng.choice(bad))
        for _ in range(2):
            x = a.ask('p.test', salts=range(n), timeout=9 if tcp else 3)
            c.seen('parallel', tcp, n, tuple(u.mode for u in ups))
            if x is None:
                c.live('parallel', 'parallel %s group with servers %r: the query was not answered' % ('TCP' if tcp else 'UDP', [u.mode for u in ups]))
                return
        if rng.random() < 0.3:
            d.advance(rng.choice([3, 12]))
    c.alive_check(d, 'the parallel group')
    c.sample({'servers': n, 'tcp': tcp})


def anytcp(c, rnd):
    """A TCP group tried one by one: a server that does not take connections is passed over at once."""
    w, rng = c.world(), c.rng
    n = rng.choice([2, 3, 4])
    ups = [flaky(w, 'u%d' % i, i, rng) for i in range(n)]
    d = c.start(w, ['TCPGroup %s * off no' % ','.join(u.addr for u in ups), 'EnableUDPtoTCP true', 'UseCache false', 'LogOn false',
                    'TCPKeepAlive %d' % rng.choice([2, 30])])
    a = Asker(c, w, d)
    for k in range(60 if c.thorough() else 14):
        ok = set(rng.sample(range(n), rng.choice([1, 1, n - 1])))
        for i, u in enumerate(ups):
            setmode(w, u, 'ok' if i in ok else 'refuse')
        for _ in range(2):
            x = a.ask('p.test', salts=range(n), timeout=6)
            c.seen('anytcp', n, tuple(sorted(ok)))
            if x is None:
                c.live('tcp-refused', 'TCP group with servers %r (non-parallel): the query was not answered' % [u.mode for u in ups])
                return
        if rng.random() < 0.3:
            d.advance(rng.choice([3, 12]))
    c.alive_check(d, 'refusing TCP servers')
    c.sample({'servers': n})


def recover(c, rnd):
    """Servers that were down for long are used again as soon as they are back."""
    w, rng = c.world(), c.rng
    u, t, p = flaky(w, 'u', 0, rng), flaky(w, 't', 1, rng), flaky(w, 'p', 2, rng)
    px = w.socks('px', {(p.host, p.port): p})
    d = c.start(w, ['UDPGroup %s * off' % u.addr, 'TCPGroup %s t.test off no' % t.addr, 'TCPGroup %s p.test off %s' % (p.addr, px.addr),
                    'EnableUDPtoTCP true', 'UseCache false', 'LogOn false', 'TCPKeepAlive %d' % rng.choice([2, 30])])
    a = Asker(c, w, d)
    for k in range(20 if c.thorough() else 5):
        setmode(w, u, rng.choice(['silent', 'garbage']))
        setmode(w, t, rng.choice(['refuse', 'silent', 'rst', 'closeaccept', 'half']))
        px.accept = rng.random() < 0.5
        px.refuse = not px.accept or rng.random() < 0.5
        for i in range(rng.choice([3, 12, 25])):
            a.cl.send(dns.query(50000 + i, 'lost%d.test' % i, 1))
            if i < 4:
                a.cl.send(dns.query(51000 + i, 'lost%d.t.test' % i, 1))
                a.cl.send(dns.query(52000 + i, 'lost%d.p.test' % i, 1))
        for _ in range(rng.choice([1, 3])):
            w.run(None, 0.15)
            d.advance(14)
        w.run(None, 0.3)
        setmode(w, u, 'ok')
        setmode(w, t, 'ok')
        px.accept, px.refuse = True, False
        for dom, s in (('x.test', 0), ('y.t.test', 1), ('z.p.test', 2)):
            x = a.ask(dom, salts=(s,), timeout=12)
            if x is None:       # one more: the first may meet the end of the failure
                x = a.ask(dom, salts=(s,), timeout=12)
                c.count('second_try')
            c.seen('recover', dom, k)
            if x is None:
                c.live('recover', 'the server of %s is back, but queries are not answered' % dom)
                return
    c.alive_check(d, 'recovered servers')
    c.sample({})


def keepalive(c, how, rnd):
    """A server may close a kept connection at any time without a query getting lost."""
    w, rng = c.world(), c.rng
    u = flaky(w, 'u', 0, rng)
    st = {'kill': False}
    inner = u.handler

    def handle(srv, q, proto, reply):
        if st['kill'] and reply.nth > 1:
            st['kill'] = False
            if how == 'rstquery':
                reply.conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            srv.close_conn(reply.conn)
            c.count('closed_on_query')
            return
        inner(srv, q, proto, reply)
    u.handler = handle
    d = c.start(w, ['TCPGroup %s * off no' % u.addr, 'EnableUDPtoTCP true', 'UseCache false', 'LogOn false', 'TCPKeepAlive 60'])
    a = Asker(c, w, d)
    for k in range(60 if c.thorough() else 12):
        if how in ('fin', 'rst'):
            if rng.random() < 0.6:
                for x in list(u.conns):
                    if how == 'rst':
                        x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                    u.close_conn(x)
                    c.count('closed_idle')
                w.run(None, 0.05)
        else:
            st['kill'] = rng.random() < 0.6
        x = a.ask('k.test', timeout=6)
        c.seen('keepalive', how, k % 4)
        if x is None:
            c.live('keepalive', 'the server closed a kept connection (%s): the next query was not answered' % how)
            return
    c.alive_check(d, 'closed connections')
    c.count('connections', u.accepted)
    c.sample({'how': how})


def deaf(c, rnd):
    """A path that silently forgets connections idle for longer than they are to be kept."""
    w, rng = c.world(), c.rng
    u = flaky(w, 'u', 0, rng)
    inner = u.handler
    deafs = set()

    def handle(srv, q, proto, reply):
        if reply.conn in deafs:
            c.count('swallowed')
            return
        inner(srv, q, proto, reply)
    u.handler = handle
    ka = (2, 4, 15)[rnd % 3]
    conf = ['EnableUDPtoTCP true', 'UseCache false', 'LogOn false', 'TCPKeepAlive %d' % ka]
    px = w.socks('px', {(u.host, u.port): u}).addr if rng.random() < 0.5 else 'no'
    d = c.start(w, conf + ['TCPGroup %s * off %s' % (u.addr, px)])
    a = Asker(c, w, d)
    for k in range(30 if c.thorough() else 8):
        for _ in range(rng.choice([1, 3])):
            a.cl.send(dns.query(40000 + k, 'e%d.test' % k, 1))
        if a.ask('k.test', timeout=6) is None:
            c.live('deaf', 'a query was not answered after the connections idle for longer than TCPKeepAlive (%d s) had gone dead' % ka)
            return
        w.run(None, 0.2)
        if rng.random() < 0.7:
            d.advance(ka + rng.choice([1.2, 1.2, 2, 30]))
            deafs.update(u.conns)
            c.count('went_dead', len(u.conns))
        c.seen('deaf', ka, px == 'no', k % 4)
    c.alive_check(d, 'dead connections')
    c.sample({'keepalive': ka})


def exhaust(c, tcp, rnd):
    """No descriptors left for a while: afterwards everything works again."""
    w, rng = c.world(), c.rng
    u = flaky(w, 'u', 0, rng)
    v = flaky(w, 'v', 1, rng)
    d = c.start(w, ['UDPGroup %s * off' % u.addr, 'TCPGroup %s t.test off no' % v.addr, 'EnableUDPtoTCP true', 'UseCache false', 'LogOn false',
                    'TCPKeepAlive 1'])
    a = Asker(c, w, d)
    lim = resource.prlimit(d.p.pid, resource.RLIMIT_NOFILE)
    for k in range(12 if c.thorough() else 3):
        if a.ask('x.test', timeout=6) is None or a.ask('y.t.test', salts=(1,), timeout=8) is None:
            c.live('exhaust', 'after the shortage of descriptors ended (round %d) queries are not answered' % k)
            return
        resource.prlimit(d.p.pid, resource.RLIMIT_NOFILE, (3, lim[1]))
        setmode(w, u, 'silent')
        if tcp:
            d.advance(5)
            for i in range(4):
                a.cl.send(dns.query(60000 + i, 'e%d.t.test' % i, 1))
                w.run(None, 0.3)
        # enough time-outs for the UDP socket to be given up and created again
        for i in range(14):
            a.cl.send(dns.query(61000 + i, 'e%d.test' % i, 1))
        tc = []
        for i in range(3):
            try:
                tc.append(w.tclient(d))
            except OSError:
                pass
        w.run(None, 0.3)
        for _ in range(3):
            d.advance(14)
            w.run(None, 0.3)
        for i in range(3):
            a.cl.send(dns.query(62000 + i, 'f%d.test' % i, 1))
        w.run(None, 0.2)
        d.advance(14)
        w.run(None, 0.3)
        c.seen('exhaust', tcp, k)
        resource.prlimit(d.p.pid, resource.RLIMIT_NOFILE, lim)
        setmode(w, u, 'ok')
        for x in tc:
            x.close()
        d.advance(2)
        w.run(None, 0.4)
    if a.ask('x.test', timeout=6) is None or a.ask('y.t.test', salts=(1,), timeout=8) is None or a.ask('z.test', timeout=6, tcp=True) is None:
        c.live('exhaust', 'after the shortage of descriptors ended queries are not answered')
        return
    c.alive_check(d, 'the shortage of descriptors')
    c.sample({'tcp': tcp})
