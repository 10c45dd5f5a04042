"""P23: only a group's own servers can answer for it; datagrams of strangers change nothing."""
import os, re, socket, struct, time
import dns, wl, world

LEVEL = 'exploration'
RULE = ('A case is one query during which, or one round of questions before which, strangers (other addresses, other ports, servers of other '
        'groups) send datagrams to the sockets the daemon has open besides its local addresses: forged replies fitting the query in everything '
        'but the source, replies about names nobody asked for, copies of the daemon\'s own internal messages with chosen fields, noise. The '
        'reply, what is cached afterwards, and what each server is asked must be as without the strangers. Non-trivial: distinct by (scenario, '
        'kind of socket, kind of stranger, kind of forgery, moment).')
ASSUMPTIONS = ['strangers do not forge the source address of datagrams', 'local port numbers are read from /proc, as any local user can']


def scenarios(tier, seed):
    k = 8 if tier == 'thorough' else 1
    out = []
    for i in range(k):
        for kind in ('one', 'two', 'par', 'parcache', 'v6', 'groups', 'hosts', 'hosts6', 'tcp', 'socks', 'flood'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


def open_ports(d):
    """[(address, port)] of the UDP sockets of the daemon."""
    ino = set()
    for t in os.listdir('/proc/%d/task' % d.p.pid):
        b = '/proc/%d/task/%s/fd' % (d.p.pid, t)
        try:
            for f in os.listdir(b):
                try:
                    m = re.match(r'socket:\[(\d+)\]', os.readlink(b + '/' + f))
                except OSError:
                    continue
                if m:
                    ino.add(m.group(1))
        except OSError:
            continue
    out = []
    for f in ('udp', 'udp6'):
        for l in open('/proc/net/' + f).read().splitlines()[1:]:
            x = l.split()
            if x[9] in ino:
                a, p = x[1].split(':')
                raw = b''.join(struct.pack('=I', int(a[i:i + 8], 16)) for i in range(0, len(a), 8))
                out.append((socket.inet_ntop(socket.AF_INET if f == 'udp' else socket.AF_INET6, raw), int(p, 16)))
    return out


class Stranger:
    """Sends datagrams from one address; keeps what came back."""
    def __init__(self, w, addr):
        self.addr, self.rx = addr, []
        self.v6 = ':' in addr[0]
        self.s = socket.socket(socket.AF_INET6 if self.v6 else socket.AF_INET, socket.SOCK_DGRAM)
        self.s.bind(addr)
        self.s.setblocking(False)
        w.loop.reg(self.s, self.on)

    def on(self, s):
        for _ in range(64):
            try:
                self.rx.append(s.recvfrom(65535))
            except OSError:
                return

    def send(self, m, to):
        a = {'0.0.0.0': '127.0.0.1', '::': '::1'}.get(to[0], to[0])
        if (':' in a) != self.v6:
            if to[0] != '::':
                return False
            return False
        try:
            self.s.sendto(m, (a, to[1]))
            return True
        except OSError:
            return False


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    asked = {}          # (server, name) -> number
    during = []         # called for each query a server gets
    v6 = kind == 'v6'
    host = '::1' if v6 else '127.0.0.1'

    def handle(srv, q, proto, reply):
        n = wl.qinfo(q)[1]
        asked[(srv.name, n)] = asked.get((srv.name, n), 0) + 1
        late = 0
        for f in list(during):
            late = max(late, f(srv, q, proto) or 0)
        if srv.name == 'mute':
            return
        reply(wl.std_answer(q, 5), delay=late)
    tcp = kind in ('tcp', 'socks')
    names = {'two': ['u', 'v'], 'par': ['u', 'v', 'mute'], 'parcache': ['u', 'v', 'mute'], 'flood': ['u', 'v']}.get(kind, ['u'])
    ups = [w.upstream(n, handle, tcp=True, host=host if i == 0 or v6 else '127.0.0.%d' % (1 + i)) for i, n in enumerate(names)]
    other = w.upstream('other', handle, tcp=True, host=host)
    par = kind in ('par', 'parcache') or (kind == 'flood' and rng.random() < 0.5)
    cached = kind in ('parcache', 'hosts', 'tcp') or rng.random() < 0.6
    conf = ['LogOn %s' % rng.choice(['true', 'false']), 'EnableUDPtoTCP true', 'UseCache %s' % str(cached).lower(), 'MemoryCache true', 'OverrideTTL -1',
            'CacheParallel %s' % ('true' if kind == 'parcache' or (kind != 'groups' and rng.random() < 0.7) else 'false'),
            'DisabledDomain dis.test', 'AppendHosts 10.1.2.3 h.hosts.test', 'AppendHosts tgt.test alias.hosts.test']
    lst = ','.join(u.addr for u in ups)
    proxy = w.socks('proxy', {(u.host, u.port): u for u in ups}) if kind == 'socks' else None
    if tcp:
        conf.append('TCPGroup %s * off no' % lst if kind == 'tcp' else 'TCPGroup %s * off %s' % (lst, proxy.addr))
    else:
        conf.append('UDPGroup %s * %s' % (lst, 'on' if par else 'off'))
    if kind in ('groups', 'hosts', 'tcp'):
        conf.append('UDPGroup %s other.test off' % other.addr)
    kw = {'host': '::1'} if kind == 'hosts6' else {}
    d = c.start(w, conf, **kw)
    cl = world.UdpClient(w, d.dst, src=d.host)

    port = ups[0].port
    strangers = [Stranger(w, ('127.0.0.1', 0)), Stranger(w, ('::1', 0))]
    for h_ in ('127.0.0.77', '127.9.8.7'):
        try:
            strangers.append(Stranger(w, (h_, port)))
        except OSError:
            pass

    def targets():
        """Sockets that are not for clients: the ones to servers, and the internal ones."""
        ext, internal = [], []
        for a, p in open_ports(d):
            if p == d.port:
                continue
            (ext if a in ('0.0.0.0', '::') else internal).append((a, p))
        return ext, internal

    for a, p in targets()[1]:
        if ':' not in a:
            # the very port, of another address
            try:
                strangers.append(Stranger(w, ('127.0.0.99', p)))
            except OSError:
                pass

    POISON = bytes([66, 66, 66])

    def forged(q, how):
        """A reply to the query, with records no server has said."""
        labels, n, t, k, e = wl.qinfo(q)
        rd = {1: POISON + b'\1', 28: b'\x20\x01\x0d\xb8' + POISON * 4}.get(t, b'\6poison')
        an = [dns.rr(dns.ptr(12), t, 86400, rd)]
        if how == 'servfail':
            return dns.response(q, [], rcode=2)
        if how == 'nx':
            return dns.response(q, [], rcode=3)
        if how == 'empty':
            return dns.response(q, [])
        if how == 'tc':
            return dns.response(q, an, tc=True)
        if how == 'many':
            return dns.response(q, [dns.rr(dns.ptr(12), t, 86400, rd[:-1] + bytes([i])) for i in range(20)] if t in (1, 28) else an)
        if how == 'alias':
            return dns.response(q, [dns.rr(dns.ptr(12), 5, 86400, dns.enc_name('poison.test')),
                                    dns.rr(dns.enc_name('poison.test'), t, 86400, rd)])
        if how == 'extra':
            return dns.response(q, an, additional=[dns.rr(dns.enc_name('victim%d.test' % rng.randrange(6)), 1, 86400, POISON + b'\2')])
        return dns.response(q, an)
    HOWS = ['plain', 'plain', 'servfail', 'nx', 'empty', 'tc', 'many', 'alias', 'extra']

    def message(q, to):
        """Something like the daemon's internal messages: a header of fields and pointers before the DNS message."""
        size = rng.choice([300, 320, 328, 336, 340, 344, 352, 360, 376, 400])
        fill = rng.choice([b'\0', b'\xff', b'A', b'\1'])
        b = bytearray(fill * size)
        for _ in range(rng.randrange(8)):
            p = rng.randrange(0, size - 8) & ~7
            b[p:p + 8] = struct.pack('<Q', rng.choice([0, 1, 8, 0x1000, 0x7fffffffffff, 2 ** 64 - 1, 0x602000000010, rng.randrange(2 ** 64)]))
        n = rng.choice([b'alias.hosts.test\0', b'h.hosts.test\0', b'tgt.test\0'])
        if rng.random() < 0.5:
            p = rng.randrange(0, size - len(n))
            b[p:p + len(n)] = n
        return bytes(b) + (q if rng.random() < 0.5 else forged(q, 'plain'))

    num = [0]

    def poisoned(m):
        return POISON in m[12:] or b'poison' in m[12:]

    def ask(n, t, what, allow=None):
        """One query; what a server said is due."""
        q = dns.query(rng.randrange(65536), n, t)
        cl.rx.clear()
        for _ in range(6):
            cl.send(q)
            if w.run(lambda: any(m[:2] == q[:2] for m in cl.msgs()), 2.0):
                break
        w.run(None, 0.004)
        l = [m for m in cl.msgs() if m[:2] == q[:2]]
        c.ev()
        if not l:
            if d.alive():
                c.live('no-reply', '%s type %d: no reply, %s' % (n, t, what))
            return False
        for m in l:
            g = dns.parse(m)
            if poisoned(m):
                c.bad('forged-passed-on', '%s type %d: a client got what only a stranger said, %s: %s' % (n, t, what, m.hex()))
                return False
            if n.endswith('dis.test'):
                ok = not g.an
            elif n == 'h.hosts.test' and t == 1:
                ok = [x.value for x in g.an] == ['10.1.2.3']
            elif n == 'alias.hosts.test':
                ok = len(g.an) == 2 and g.an[0].type == 5 and g.an[1].rdata == wl.rdata_for('tgt.test', t, 5)
            else:
                ok = len(g.an) == 1 and g.an[0].rdata == wl.rdata_for(n, t, 5)
            if g.rcode or not ok:
                c.bad('wrong-reply', '%s type %d: %s: %s' % (n, t, what, m.hex()))
                return False
        return True

    rounds = {'quick': 26}.get(c.tier, 120)
    vn = 0
    for rd in range(rounds):
        ext, internal = targets()
        if not ext and not internal:
            # with TCP alone there are only internal ones
            c.count('no_sockets')
        # 1. forged replies while a query is on its way
        if not tcp or kind == 'tcp':
            num[0] += 1
            n = 'n%d.%s' % (num[0], 'other.test' if kind in ('groups', 'tcp') and (tcp or rng.random() < 0.3) else 'test')
            t = rng.choice([1, 28, 16])
            how, moment = rng.choice(HOWS), rng.choice(['before', 'with', 'repeat'])
            who = rng.choice(strangers if kind != 'groups' else ['servers'] + strangers)
            sent = [0]

            def attack(srv, q, proto):
                if wl.qinfo(q)[1] != n or proto != 'udp' or srv.name == 'mute':
                    return 0
                for _ in range({'repeat': 4}.get(moment, 1)):
                    for a in ext:
                        m = forged(q, how)
                        for s in ([who] if who != 'servers' else []):
                            sent[0] += bool(s.send(m, a))
                        if who == 'servers':
                            # the server of one group answers for the other
                            x = other if srv is not other else ups[0]
                            x._usend(m, ({'0.0.0.0': '127.0.0.1', '::': '::1'}[a[0]], a[1]))
                            sent[0] += 1
                return 0.02 if moment != 'with' else 0
            during.append(attack)
            ok = ask(n, t, 'while %s sent %s (%s)' % (getattr(who, 'addr', who), how, moment))
            during.remove(attack)
            if not ok:
                return
            if sent[0]:
                c.seen(kind, 'server socket', getattr(who, 'v6', who), how, moment)
                c.count('forged', sent[0])
                c.sample({'asked': n, 'type': t, 'stranger': str(getattr(who, 'addr', who)), 'forgery': how, 'moment': moment, 'sockets': len(ext)})
        # 2. unasked replies, then the question
        for _ in range(2):
            num[0] += 1
            n, t = 'un%d.test' % num[0], rng.choice([1, 28])
            how = rng.choice(HOWS)
            q = dns.query(rng.randrange(65536), n, t)
            k = 0
            who = rng.choice(strangers)
            for a in ext + internal:
                for s in strangers if rng.random() < 0.3 else [who]:
                    k += bool(s.send(forged(q, how), a))
            w.run(None, 0.003)
            before = sum(v for (s, x), v in asked.items() if x == n)
            if not ask(n, t, 'after a stranger said something unasked (%s)' % how):
                return
            after = sum(v for (s, x), v in asked.items() if x == n)
            if after == before:
                c.bad('unasked-taken', '%s type %d was answered without asking a server after a stranger had sent %s' % (n, t, how))
                return
            if k:
                c.seen(kind, 'unasked', who.v6, how, len(ext) > 0)
                c.count('unasked', k)
        # 3. messages to the internal sockets
        k = 0
        for a in internal + ext:
            for s in strangers:
                for _ in range(rng.choice([1, 4])):
                    what = rng.choice(['message', 'message', 'noise', 'query', 'short'])
                    q = dns.query(rng.randrange(65536), rng.choice(['alias.hosts.test', 'x.test']), 1)
                    m = {'message': lambda: message(q, a), 'noise': lambda: rng.randbytes(rng.choice([50, 400, 1500])),
                         'query': lambda: q, 'short': lambda: rng.randbytes(rng.randrange(12))}[what]()
                    if s.send(m, a):
                        k += 1
                        c.seen(kind, 'internal' if a in internal else 'server socket', s.v6, what)
        c.count('internal', k)
        w.run(None, 0.002)
        n = rng.choice(['alias.hosts.test', 'h.hosts.test', 'x%d.dis.test' % rd, 'p%d.test' % rd])
        if not ask(n, 1, 'after strangers sent messages to internal sockets'):
            return
        # 4. names strangers have told additionally
        vn = rng.randrange(6)
        if not ask('victim%d.test' % vn, 1, 'a name strangers sent records of'):
            return
        if kind == 'flood':
            ext, internal = targets()
            for i in range(300):
                for a in ext + internal:
                    rng.choice(strangers).send(message(q, a) if i % 2 else forged(q, 'plain'), a)
                if i % 50 == 0:
                    w.run(None, 0.002)
            c.count('flood', 300 * len(ext + internal))
        if rd % 8 == 7:
            d.advance(rng.choice([5, 60, 400]))
        for s in strangers:
            for m, a in s.rx:
                c.bad('sent-to-stranger', 'the daemon sent %s from %s to %s' % (m.hex(), a, s.addr))
                return
        if not d.alive():
            return
    if not c.counts.get('forged', 0) + c.counts.get('internal', 0):
        c.live('nothing-observed', 'no datagram reached a socket')
