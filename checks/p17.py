"""P17: whatever is taken for clients, queries, connections and reloads is given back."""
import os, resource, socket, struct
import dns, wl
import p05

LEVEL = 'exploration'
RULE = ('A case is one cycle of work (queries, client connections, failing servers, reloads, checks of address lists) after which the '
        'service is left in peace until everything pending has expired; then open descriptors, threads and allocated heap bytes are '
        'compared with the cycles before: none may keep growing, and no descriptor may be closed that is not open. Non-trivial: '
        'distinct by (scenario, cycle kind, variation of the cycle).')
ASSUMPTIONS = ['every cycle of a scenario asks for the same amount of work, so that what is kept on purpose (pools, statistics by name) stops growing',
               'heap bytes are those the sanitizer run-time has handed out and not got back',
               'expiry runs on a virtual clock']
WORKERS = 10
# every cycle of a scenario has the same failures, so that what one of them leaks grows with every cycle
TCPBAD = [('refuse', 'closeaccept', 'toolarge'), ('rst', 'half', 'ok'), ('garbage', 'closeafter', 'halfbody'), ('blocked', 'silent', 'rst')]


def scenarios(tier, seed):
    k = 5 if tier == 'thorough' else 1
    out = []
    for i in range(k):
        for kind in KINDS:
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
        out.append(('manyfds-%d' % i, manyfds, {'rnd': i}))
        out.append(('backlog-%d' % i, backlog, {'rnd': i}))
        for kind in ('udp', 'alias'):
            out.append(('busy-%s-%d' % (kind, i), busy, {'kind': kind, 'rnd': i}))
    return out


class Job:
    """One kind of cycle."""
    CYCLES, WARM, LAP, STEP = 14, 5, 3, 14
    conf, files = [], {}

    def __init__(self, c, w, rng):
        self.c, self.w, self.rng = c, w, rng
        self.n = 0
        self.setup()

    def setup(self):
        pass

    def started(self, d):
        self.d = d
        self.cl = self.w.client(d)

    def name(self, dom):
        self.n += 1
        return 'n%06d.%s' % (self.n, dom)

    def burst(self, names, t=1, wait=0.15):
        k = len(self.cl.rx)
        for n in names:
            self.cl.send(dns.query(self.n % 60000 + 1, n, t))
            self.n += 1
        self.w.run(lambda: len(self.cl.rx) - k >= len(names), wait)
        return len(self.cl.rx) - k


class Queries(Job):
    def setup(self):
        def h(srv, q, proto, reply):
            labels, n, t, k, e = wl.qinfo(q)
            if 'lost' in n:
                return
            if 'twice' in n:
                reply(wl.std_answer(q, 0))
            if 'junk' in n:
                reply(q[:5])
                reply(b'')
                reply(q[:2] + b'\x81\x80' + b'\xff' * 20)
            reply(wl.std_answer(q, 0))
        self.u = self.w.upstream('u', h)
        self.conf = ['UDPGroup %s * off' % self.u.addr, 'UDPGroup %s par.test on' % self.u.addr, 'DisabledDomain no.test',
                     'AppendHosts 10.0.0.1 h.test', 'AppendHosts *.c.test x.real.test', 'BlockIpv6WhenIpv4Exists true', 'UseCache false']
        self.files = {}

    def cycle(self, i):
        for dom in ('x.test', 'lost.test', 'par.test', 'junk.test', 'twice.test', 'no.test', 'h.test', 'c.test'):
            self.burst([self.name(dom) for _ in range(25)], t=self.rng.choice([1, 28, 16]), wait=0.3 if dom != 'lost.test' else 0.05)
        for _ in range(30):
            self.cl.send(bytes(self.rng.randrange(256) for _ in range(self.rng.choice([0, 3, 12, 40]))))
        return 'mixed'


class Cache(Queries):
    def setup(self):
        super().setup()
        self.conf = [x for x in self.conf if 'UseCache' not in x] + [
            'UseCache true', 'CacheSize 102400', 'MemoryCache true', 'IgnoreTTL false', 'OverrideTTL 1']


class Tcp(Job):
    PROXY = False
    SET = 0
    CYCLES = 11

    def setup(self):
        # a lasting working server keeps the group busy while the other one fails
        self.u = p05.flaky(self.w, 'u', 0, self.rng)
        self.conf = ['UDPGroup %s * off' % self.u.addr, 'UseCache false', 'EnableUDPtoTCP true']
        self.b, self.px = [], []
        for i in range(3):
            b = p05.flaky(self.w, 'b%d' % i, 0, self.rng)
            self.b.append(b)
            if self.PROXY:
                px = self.w.socks('px%d' % i, {('127.0.0.1', b.port): b})
                self.px.append(px)
                self.conf.append('TCPGroup %s t%d.test off %s' % (b.addr, i, px.addr))
            else:
                self.conf.append('TCPGroup %s t%d.test %s no' % (
                    b.addr if i else '%s,%s' % (b.addr, self.u.addr), i, 'on' if i == 1 else 'off'))

    def cycle(self, i):
        ms = TCPBAD[self.SET][i % 3:] + TCPBAD[self.SET][:i % 3]
        for b, m in zip(self.b, ms):
            p05.setmode(self.w, b, m)
        for k in range(4):
            for j in range(3):
                self.burst([self.name('t%d.test' % j) for _ in range(3)], wait=0.12)
        self.c.count('tcp_failing_' + '/'.join(sorted(ms)))
        self.fence()
        return tuple(ms)

    def started(self, d):
        super().started(d)
        # fill the pools first
        for b in self.b:
            p05.setmode(self.w, b, 'silent')
        for j in range(3):
            self.burst([self.name('t%d.test' % j) for _ in range(24)], wait=0.02)
        self.fence()

    def fence(self):
        """Until the groups have worked off everything: a query to each, with its server well again, is answered."""
        for b in self.b:
            p05.setmode(self.w, b, 'ok')
        for j in range(3):
            for k in range(150):
                if k % 15 == 0:
                    self.cl.send(dns.query(60001 + j, self.name('t%d.test' % j), 1))
                    at = len(self.cl.rx)
                if any(m[:2] == struct.pack('!H', 60001 + j) for m in self.cl.msgs()[at:]):
                    break
                self.d.advance(1)
                self.w.run(None, 0.03)
            else:
                self.c.count('fences_missed')


class TcpSilent(Tcp):
    CYCLES, WARM = 10, 3

    def cycle(self, i):
        for b in self.b:
            p05.setmode(self.w, b, 'silent')
        for k in range(5):
            for j in range(3):
                self.burst([self.name('t%d.test' % j) for _ in range(3)], wait=0.1)
        self.fence()
        return 'silent'


class Clients(Job):
    def setup(self):
        self.u = p05.flaky(self.w, 'u', 0, self.rng)
        self.conf = ['UDPGroup %s * off' % self.u.addr, 'UseCache false', 'EnableTCPtoUDP true', 'DisabledDomain no.test']

    def cycle(self, i):
        rng, kinds = self.rng, []
        cls = []
        for k in range(24):
            cl = self.w.tclient(self.d)
            how = ('idle', 'half', 'partial', 'big', 'zero', 'garbage', 'query', 'many', 'no')[k % 9]
            if how == 'half':
                cl.send_raw(b'\0')
            elif how == 'partial':
                cl.send_raw(b'\0\x30' + b'x' * 10)
            elif how == 'big':
                cl.send_raw(b'\xff\xff' + b'x' * 3000)
            elif how == 'zero':
                cl.send_raw(b'\0\0\0\0')
            elif how == 'garbage':
                cl.send_raw(bytes(rng.randrange(256) for _ in range(200)))
            elif how in ('query', 'many', 'no'):
                for _ in range(1 if how != 'many' else 8):
                    cl.send(dns.query(self.n % 60000, self.name('no.test' if how == 'no' else 'x.test'), 1))
            cls.append((cl, how))
        self.w.run(None, 0.1)
        for cl, how in cls:
            cl.close(rst=rng.random() < 0.4)
        return 'clients'


class Reload(Job):
    CYCLES, WARM, STEP = 14, 5, 2.5         # nothing is reloaded while the gauges are read

    def setup(self):
        self.u = p05.flaky(self.w, 'u', 0, self.rng)
        self.conf = ['UDPGroup %s * off' % self.u.addr, 'UseCache false', 'EnableUDPtoTCP true',
                     'Hosts file://{DIR}/hsrc', 'HostsDownloadPath {DIR}/hdl', 'ModulesUpdateInterval 40', 'HostsRetryInterval 40',
                     'ReloadDisabledList true', 'DisabledList {DIR}/dl', 'ReloadIPSubstituting true', 'IPSubstitutingFile {DIR}/sub',
                     'ReloadGroupFile true', 'GroupFile {DIR}/grp', 'GroupFile {DIR}/grp2']
        self.files = self.texts(0)

    def texts(self, v, grp2=None):
        return {'hsrc': ''.join('10.%d.0.%d h%d.test\n%d.%d.c.test r.test\n*.w%d.test 10.0.0.1\n' % (v % 10, k, k, v % 10, k, k) for k in range(20)),
                'hdl': '10.0.0.1 h1.test\n', 'dl': ''.join('d%d.v%d.test\n' % (k, v % 10) for k in range(10)),
                'sub': ''.join('192.0.2.%d 198.51.100.%d\n' % (k, 100 + v % 10) for k in range(10)),
                'grp': 'PROTOCOL UDP\nSERVER %s\nPARALLEL %s\ngu.test\nv%d.gu.test\n' % (self.u.addr, 'ON', v % 10),
                'grp2': grp2 if grp2 is not None else 'PROTOCOL TCP\nSERVER %s,%s\nPARALLEL OFF\ngt.test\nv%d.gt.test\n' % (self.u.addr, self.u.addr, v % 10)}

    def pass_time(self):
        self.d.advance(41)
        self.w.run(None, 0.12)

    def cycle(self, i):
        for n, x in self.texts(i).items():
            if n != 'hdl':
                self.d.write(n, x)
        self.burst([self.name(x) for x in ('gu.test', 'gt.test', 'x.test')], wait=0.1)
        for _ in range(2):
            self.pass_time()
        self.c.count('reload_cycles')
        return 'reload'


class ReloadBroken(Reload):
    CYCLES, WARM, LAP = 28, 7, 7
    BROKEN = ('SERVER {S}\nother.test\n', 'PROTOCOL NONE\nSERVER {S}\nother.test\n', 'PROTOCOL UDP\nother.test\n',
              'PROTOCOL UDP\nSERVER ,\nPARALLEL ON\nother.test\n', 'PROTOCOL TCP\nSERVER {S}\nPROXY ,\nother.test\n',
              'PROTOCOL *\nother.test\n', 'PROTOCOL TCP\nSERVER ,\nother.test\n')

    def cycle(self, i):
        b = i % 7
        for n, x in self.texts(0, grp2=self.BROKEN[b].replace('{S}', self.u.addr)).items():
            if n != 'hdl':
                self.d.write(n, x)
        if b in (1, 4):
            os.unlink(self.d.dir + '/hsrc')
        self.burst([self.name(x) for x in ('gu.test', 'gt.test', 'x.test')], wait=0.1)
        for _ in range(2):
            self.pass_time()
        self.c.count('broken_reload_cycles')
        return b


class GoodIp(Job):
    def setup(self):
        self.u = p05.flaky(self.w, 'u', 0, self.rng)
        self.r = p05.flaky(self.w, 'r', 0, self.rng, mode='refuse')
        self.conf = ['UDPGroup %s * off' % self.u.addr, 'UseCache false', 'GoodIPList g1 500', 'GoodIPList g2 700', 'GoodIPList g3 700',
                     'AppendHosts <g1> g1.test', 'AppendHosts <g2> g2.test',
                     'GoodIPListAddIP g1 127.0.0.1:%d' % self.u.port, 'GoodIPListAddIP g1 127.0.0.1:%d' % self.r.port,
                     'GoodIPListAddIP g2 127.0.0.1:%d' % self.r.port, 'GoodIPListAddIP g3 240.0.0.1:80', 'GoodIPListAddIP g3 255.255.255.255:80']

    def cycle(self, i):
        for _ in range(6):
            self.burst(['g1.test', 'g2.test'], wait=0.05)
            self.d.advance(1)
            self.w.run(None, 0.05)
        return 'goodip'


class Log(Queries):
    def setup(self):
        super().setup()
        self.conf += ['LogOn true', 'LogFileFolder {DIR}', 'LogFileThresholdLength 6000', 'DomainStatistic true',
                      'DomainStatisticTempletFile {DIR}/tpl.html', 'StatisticInsertionPosition <!-- INSERT HERE -->', 'StatisticUpdateInterval 1']
        self.files = {'tpl.html': '<html><!-- INSERT HERE --></html>\n'}

    def cycle(self, i):
        self.burst(['s%d.x.test' % k for k in range(60)], wait=0.4)
        self.d.advance(2)
        self.w.run(None, 0.1)
        for f in os.listdir(self.d.dir):
            if f.startswith('dnsforwarder.log.'):
                self.c.count('log_files_rotated')
                os.unlink(os.path.join(self.d.dir, f))
        return 'log'


class TcpSocks(Tcp):
    PROXY = True


class BadProxy(TcpSocks):
    """The proxies themselves fail: they refuse the target, close at once, or answer nonsense."""
    def cycle(self, i):
        for j, px in enumerate(self.px):
            k = (i + j) % 3
            px.refuse, px.accept = k == 0, k != 1
            if k == 2:
                def evil(conn, st, px=px, n=i):
                    try:
                        x = conn.recv(4096)
                    except OSError:
                        x = b''
                    if not x:
                        px.close_conn(conn)
                    elif x[:1] == b'\x05':
                        st['k'] = st.get('k', 0) + 1
                        px._tsend(conn, (b'\x05\xff', b'\x04\x00', b'\x05')[n % 3] if st['k'] > 1 or n % 2 else b'\x05\x00')
                px._on_conn = evil
        for k in range(4):
            for j in range(3):
                self.burst([self.name('t%d.test' % j) for _ in range(3)], wait=0.12)
        for px in self.px:
            px.refuse, px.accept = False, True
            px.__dict__.pop('_on_conn', None)
            for conn in list(px.conns):
                px.close_conn(conn)
        self.fence()
        return 'badproxy'


def tcpset(cls, n):
    return type(cls.__name__ + str(n), (cls,), {'SET': n})


KINDS = {'queries': Queries, 'cache': Cache, 'tcp0': tcpset(Tcp, 0), 'tcp1': tcpset(Tcp, 1), 'tcp2': tcpset(Tcp, 2),
         'tcp3': tcpset(Tcp, 3), 'tcpsilent': TcpSilent, 'socks0': tcpset(TcpSocks, 0), 'socks2': tcpset(TcpSocks, 2), 'badproxy': BadProxy, 'clients': Clients,
         'reload': Reload, 'reloadbroken': ReloadBroken, 'goodip': GoodIp, 'log': Log}


def measure(c, w, d, base_fds, step=14):
    """Lets everything expire, then reads the gauges; waits a while for the descriptors to come down to the known level."""
    best = None
    for i in range(12):
        d.advance(step)
        w.run(None, 0.15)
        m = (d.fds(), d.threads(), d.heap())
        best = m if best is None else tuple(min(a, b) for a, b in zip(best, m))
        if i >= 2 and (base_fds is None or (m[0] <= base_fds[0] and m[1] <= base_fds[1])):
            break
    return best


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    j = KINDS[kind](c, w, rng)
    conf = list(j.conf)
    if not any(x.startswith('LogOn') for x in conf):
        conf.append('LogOn false')
    d = c.start(w, conf, files=dict(j.files))
    j.started(d)

    def one(i, base):
        what = j.cycle(i)
        if not d.alive():
            return None
        m = measure(c, w, d, base, j.STEP)
        c.ev()
        c.seen(kind, what)
        return m
    watch(c, kind, one, j.CYCLES * (3 if c.thorough() else 1), j.WARM, j.LAP)
    badclose(c, d, kind)
    c.count('descriptors_closed', d._get(9))
    c.alive_check(d, kind)


def watch(c, kind, one, n, warm, lap):
    """Runs cycles; what seems to grow is watched for twice as long again, so that a pool still being filled does not count."""
    ser, base, grows = [], None, None
    for ext in range(3):
        for _ in range(n):
            m = one(len(ser), base)
            if m is None:
                return
            ser.append(m)
            if len(ser) == warm:
                base = tuple(max(s[k] for s in ser) for k in range(3))
        g = judge(c, ser, warm if ext == 0 else len(ser) - n, lap)
        grows = g if grows is None else grows & g
        if not grows:
            break
        c.count('watched_longer')
    c.sample({'kind': kind, 'descriptors': [s[0] for s in ser], 'threads': [s[1] for s in ser], 'heap': [s[2] for s in ser]})
    for k in sorted(grows):
        what = ('descriptors', 'threads', 'heap')[k]
        c.live('grows:%s:%s' % (what, kind), '%s after each %s cycle left in peace: %r' % (what, kind, [s[k] for s in ser]))


def badclose(c, d, kind):
    if d._get(6):
        t = d.stdout()
        i = t.find('BAD-CLOSE')
        c.bad('close-badf', '%s: %d close() calls named a descriptor that was not open (%d closed in order)\n%s' % (
            kind, d._get(6), d._get(9), t[i:i + 1200]))


def judge(c, ser, warm, lap):
    """Which gauges grew in every lap (a lap has all variations of the cycle)."""
    out = set()
    for k in range(3):
        v = [s[k] for s in ser]
        c.count('gauges_read', len(v))
        laps = [min(v[i:i + lap]) for i in range(len(v) - lap, max(warm - lap, 0) - 1, -lap)][::-1]
        if len(laps) >= 3 and all(b > a for a, b in zip(laps, laps[1:])) \
                and sorted(v[-lap:])[lap // 2] > sorted(v[-2 * lap:-lap])[lap // 2]:
            out.add(k)
    return out


def manyfds(c, rnd):
    """More descriptors than select() can handle."""
    w, rng = c.world(), c.rng
    resource.setrlimit(resource.RLIMIT_NOFILE, (4096, 4096))
    u = p05.flaky(w, 'u', 0, rng)
    t = p05.flaky(w, 't', 0, rng)
    d = c.start(w, ['UDPGroup %s * off' % u.addr, 'TCPGroup %s t.test off no' % t.addr, 'TCPGroup %s,%s tp.test on no' % (t.addr, u.addr),
                    'EnableTCPtoUDP true', 'EnableUDPtoTCP true', 'UseCache false', 'LogOn false', 'GoodIPList g 500',
                    'GoodIPListAddIP g 127.0.0.1:%d' % u.port, 'AppendHosts <g> g.test', 'ReloadGroupFile true', 'ModulesUpdateInterval 1',
                    'GroupFile {DIR}/grp'], files={'grp': 'PROTOCOL *\nSERVER %s\ngr.test\n' % u.addr})
    resource.prlimit(d.p.pid, resource.RLIMIT_NOFILE, (4096, 4096))
    a = p05.Asker(c, w, d)
    if a.ask('x.test') is None:
        c.live('unanswered', 'not answered at all')
        return
    for dom in ('t.test', 'tp.test', 'x.test', 'gr.test', 'g.test'):
        a.ask(dom, timeout=1)
    before = measure(c, w, d, None)
    for rd in range(3 if c.thorough() else 1):
        socks = []
        for k in range(1400):
            s = socket.socket()
            s.setblocking(False)
            try:
                s.connect(d.dst)
            except BlockingIOError:
                pass
            socks.append(s)
            if k % 50 == 49:
                w.run(None, 0.03)
        for k in range(40):
            if d.fds() >= 1020:
                break
            s = socket.socket()
            s.setblocking(False)
            s.connect_ex(d.dst)
            socks.append(s)
            w.run(None, 0.03)
        c.count('descriptors_in_use', d.fds())
        c.seen('manyfds', d.fds() > 1000)
        for dom in ('t.test', 'tp.test', 'x.test', 'gr.test', 'g.test') * 4:
            a.ask(dom, timeout=0.1)
            d.advance(rng.choice([0.5, 1.1]))
            if not d.alive():
                return
        # with the connections in place, the UDP part must go on
        if a.ask('x.test', timeout=3) is None:
            c.live('stopped', 'no answer over UDP while %d descriptors are in use' % d.fds())
        for s in socks:
            s.close()
        after = measure(c, w, d, before)
        c.ev()
        for dom, tcp in (('x.test', False), ('t.test', False), ('gr.test', False), ('x.test', True)):
            if not any(a.ask(dom, tcp=tcp, timeout=3) is not None for _ in range(3)):
                c.live('not-recovered', '%s (%s) not answered after the connections were gone' % (dom, 'tcp' if tcp else 'udp'))
                return
        if after[0] > before[0] + 2:
            c.live('grows:descriptors:manyfds', '%d descriptors before, %d after' % (before[0], after[0]))
    badclose(c, d, 'manyfds')


def backlog(c, rnd):
    """Connections that are never established."""
    w, rng = c.world(), c.rng
    u = p05.flaky(w, 'u', 0, rng)
    b = socket.socket()
    b.bind(('127.0.0.1', 0))
    b.listen(0)
    ad = b.getsockname()
    fill = []
    for _ in range(4):
        s = socket.socket()
        s.setblocking(False)
        try:
            s.connect(ad)
        except BlockingIOError:
            pass
        fill.append(s)
    addr = '%s:%d' % ad
    px = '%s:%d' % ad
    d = c.start(w, ['UDPGroup %s * off' % u.addr, 'TCPGroup %s t.test off no' % addr, 'TCPGroup %s,%s tp.test on no' % (addr, u.addr),
                    'TCPGroup %s tx.test off %s' % (u.addr, px), 'EnableUDPtoTCP true', 'UseCache false', 'LogOn false'])
    a = p05.Asker(c, w, d)
    a.ask('x.test')

    def one(i, base):
        for k in range(6):
            for dom in ('t.test', 'tp.test', 'tx.test'):
                a.ask(dom, timeout=0.03)
            d.advance(1)
        for k in range(25):
            d.advance(6)
            w.run(None, 0.06)
        c.ev()
        c.seen('backlog', i % 2)
        c.count('connections_never_established', 18)
        return measure(c, w, d, base) if d.alive() else None
    watch(c, 'backlog', one, 10 * (3 if c.thorough() else 1), 4, 3)
    if a.ask('x.test', timeout=3) is None:
        c.live('stopped', 'no answer over UDP after connections that were never established')
    for s in fill + [b]:
        s.close()


def busy(c, kind, rnd):
    """Queries that are never answered among others that are: it never becomes quiet."""
    w, rng = c.world(), c.rng

    def handle(srv, q, proto, reply):
        n = wl.qinfo(q)[1]
        if not n.endswith('dead.test'):
            reply(wl.std_answer(q))
    u = w.upstream('u', handle, tcp=True)
    d = c.start(w, ['%s %s * off%s' % ('UDPGroup', u.addr, ''), 'EnableUDPtoTCP true', 'EnableTCPtoUDP true',
                    'AppendHosts x.live.test live.c.test', 'AppendHosts x.dead.test *.dead.c.test', 'UseCache false', 'LogOn false'])
    cl = w.client(d)
    num = [0]

    def send(n):
        num[0] += 1
        q = dns.query(num[0] & 0xffff, n, 1)
        cl.send(q)
        return q[:2]

    def one(i, base):
        for s in range(12):
            for _ in range(40):
                send('n%d.%s' % (num[0], 'dead.c.test' if kind == 'alias' else 'dead.test'))
            d.advance(3)
            for _ in range(3):
                cl.rx.clear()
                z = send('live.c.test' if kind == 'alias' else 'n%d.live.test' % num[0])
                w.run(lambda: any(m[1][:2] == z for m in cl.rx), 0.5)
                if any(m[1][:2] == z for m in cl.rx):
                    c.count('answered_meanwhile')
                    break
        c.ev()
        c.seen('busy', kind)
        c.count('never_answered', 480)
        return (d.fds(), d.threads(), d.heap()) if d.alive() else None
    watch(c, 'busy-' + kind, one, 10 * (3 if c.thorough() else 1), 4, 3)
    c.alive_check(d, 'never becoming quiet')
