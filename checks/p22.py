"""P22: every configured local address is served, and answers come from the address that was asked."""
import os, random, socket, struct, time
import dns, wl, world

LEVEL = 'exploration'
RULE = ('A case is one query sent to one of several local addresses. It must get exactly one reply, with the records due to it, from exactly '
        'the address and over the connection it was sent to, whatever other addresses are asked the same at the same moment, and though other '
        'configured addresses cannot be opened. Non-trivial: distinct by (scenario, transport, family, position in the list, kind of answer, '
        'number of simultaneous twins).')
ASSUMPTIONS = ['wildcard addresses are asked over the loopback address only', 'a query lost by the network is sent again by its client']


def scenarios(tier, seed):
    k = 8 if tier == 'thorough' else 2
    out = []
    for i in range(k):
        for kind in ('mixed', 'many', 'v6', 'broken', 'restart', 'tcponly', 'cache', 'tcpup'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


SCRIPT = '''#!/bin/sh
cd "$(dirname "$0")" || exit 1
echo 1 >> ran
n=0
while [ -e src ] && [ $n -lt 600 ]; do sleep 0.1; n=$((n+1)); done
'''


class Sock:
    """An UDP client that asks any address and sees where each reply came from."""
    def __init__(self, w, v6):
        self.w, self.v6 = w, v6
        self.s = socket.socket(socket.AF_INET6 if v6 else socket.AF_INET, socket.SOCK_DGRAM)
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
        self.s.bind(('::1' if v6 else '127.0.0.1', 0))
        self.s.setblocking(False)
        self.rx = []
        w.loop.reg(self.s, self.on)

    def on(self, s):
        for _ in range(64):
            try:
                d, a = s.recvfrom(65535)
            except OSError:
                return
            self.rx.append((d, a[:2]))

    def send(self, q, to):
        try:
            self.s.sendto(q, to)
        except OSError:
            pass


def text(a):
    return ('[%s]:%d' if ':' in a[0] else '%s:%d') % a


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    asked = {}

    def handle(srv, q, proto, reply):
        n = wl.qinfo(q)[1]
        asked[n] = asked.get(n, 0) + 1
        reply(wl.std_answer(q, 7), delay=rng.choice([0, 0, 0.002, 0.03]))
    u = w.upstream('u', handle, tcp=True)

    def local(fam, port=None):
        if fam == 'v4':
            return ('127.%d.%d.%d' % (rng.randrange(256), rng.randrange(256), rng.randrange(1, 255)), port or world.free_port())
        if fam == 'lo':
            return ('127.0.0.1', port or world.free_port())
        return ('::1', port or world.free_port(host='::1'))
    fams = {'mixed': ['lo', 'v4', 'v6', 'v4'], 'many': ['v4'] * 9 + ['v6'] * 3, 'v6': ['v6', 'v6'], 'broken': ['v4', 'lo', 'v6'],
            'restart': ['lo', 'v4', 'v6'], 'tcponly': ['lo', 'v4'], 'cache': ['v4', 'v6', 'v4'], 'tcpup': ['v4', 'v6', 'lo']}[kind]
    rng.shuffle(fams)
    same = world.free_port()
    udp = [local(f, same if f == 'v4' and rng.random() < 0.5 else None) for f in fams]
    rng.shuffle(fams)
    tcp = [local(f, same if f == 'v4' and rng.random() < 0.5 else None) for f in fams]
    if kind == 'tcponly':
        udp = []
    hold, dead = [], []

    def lines(key, l, typ):
        """Lines and lists of addresses, some of which cannot be opened."""
        l = [text(a) for a in l]
        if kind in ('broken', 'tcponly') and (kind == 'broken' or typ == socket.SOCK_DGRAM):
            for _ in range(3):
                a = local(rng.choice(['v4', 'lo']))
                h = socket.socket(socket.AF_INET, typ)
                h.bind(a)
                if typ == socket.SOCK_STREAM:
                    h.listen(1)
                hold.append(h)
                l.insert(rng.randrange(len(l) + 1), text(a))
            l.insert(rng.randrange(len(l) + 1), '192.0.2.1:%d' % world.free_port())
            l.insert(0, l.pop(rng.randrange(len(l))))
        out = []
        while l:
            k = rng.choice([1, 1, 2, 4])
            out.append('%s %s' % (key, rng.choice([',', ', ']).join(l[:k])))
            l = l[k:]
        return out
    conf = lines('UDPLocal', udp, socket.SOCK_DGRAM) + lines('TCPLocal', tcp, socket.SOCK_STREAM)
    cached = kind == 'cache' or rng.random() < 0.3
    conf += ['LogOn false', 'UseCache %s' % str(cached).lower(), 'MemoryCache true', 'DisabledDomain dis.test',
             'AppendHosts 10.1.2.3 h.hosts.test', 'AppendHosts tgt.test alias.hosts.test', 'EnableTCPtoUDP true', 'EnableUDPtoTCP true']
    conf.append(('TCPGroup %s * off no' if kind == 'tcpup' else 'UDPGroup %s * off') % u.addr)
    ran = lambda: os.path.exists(d.dir + '/ran')

    def up(first):
        """Serving on all addresses? Asked until each answered, as clients do."""
        pend = [('u', a) for a in udp] + [('t', a) for a in tcp]
        end = time.monotonic() + 20
        i = 0
        while pend and time.monotonic() < end and d.alive():
            for p in list(pend):
                i += 1
                n = 'up%d-%d.test' % (id(d) % 1000, i)
                q = dns.query(i, n, 1)
                if p[0] == 'u':
                    s = Sock(w, ':' in p[1][0])
                    s.send(q, p[1])
                    w.run(lambda: s.rx, 0.4)
                    w.loop.unreg(s.s)
                    s.s.close()
                    if any(x[0][:2] == q[:2] for x in s.rx):
                        pend.remove(p)
                else:
                    try:
                        t = world.TcpClient(w, p[1])
                    except OSError:
                        w.run(None, 0.1)
                        continue
                    t.send(q)
                    w.run(lambda: t.rx, 0.4)
                    if t.rx:
                        pend.remove(p)
                    t.close()
            c.ev()
        if pend:
            c.live('not-served', '%s the addresses %s are not served\n%s' % (
                'after the start' if first else 'after a restart', pend, d.stdout()[-600:]))
            return False
        return True
    if kind == 'restart':
        # a script that is still running when the process ends
        conf += ['Hosts file://{DIR}/src', 'HostsDownloadPath {DIR}/saved', 'HostsScript {DIR}/run.sh', 'ModulesUpdateInterval 100000']
    d = c.start(w, conf, udp=False, tcp=False, ready=False, files={'src': '10.7.7.7 src.test\n', 'run.sh': SCRIPT})
    os.chmod(os.path.join(d.dir, 'run.sh'), 0o755)
    if not up(True):
        return
    socks = [Sock(w, False) for _ in range(3)] + [Sock(w, True) for _ in range(3)]
    rounds = (60 if c.thorough() else 14)
    num = [0]
    conns = {}
    old = set()         # what was asked in earlier rounds
    def conn(a):
        l = conns.setdefault(a, [])
        l[:] = [x for x in l if not x.closed and len(x.tx) < 12]
        if len(l) < 2:
            l.append(world.TcpClient(w, a))
        return rng.choice(l)

    def due(kind_, n, t, m):
        """Is this what the query had to get?"""
        g = dns.parse(m)
        if wl.qinfo(m)[1] != n or wl.qinfo(m)[2] != t:
            return 'another question'
        if kind_ == 'dis':
            return None if not g.an else 'records for a disabled name'
        if kind_ == 'hosts':
            return None if [x.value for x in g.an] == ['10.1.2.3'] else 'not the address in hosts'
        if kind_ == 'alias':
            return None if len(g.an) == 2 and g.an[0].type == 5 and g.an[1].rdata == wl.rdata_for('tgt.test', 1, 7) else 'not the alias'
        return None if g.an and g.an[0].rdata == wl.rdata_for(n, t, 7) else 'not the records of the server'

    for rd in range(rounds):
        jobs = []           # [proto, client, address, query, name, type, kind]
        used = set()
        for _ in range(rng.choice([3, 8, 20])):
            num[0] += 1
            ak = rng.choice(['fwd', 'fwd', 'fwd', 'hosts', 'dis', 'alias', 'again'])
            n, t = {'hosts': ('h.hosts.test', 1), 'dis': ('x%d.dis.test' % num[0], 1), 'alias': ('alias.hosts.test', 1),
                    'again': ('again%d.test' % (num[0] % 3), rng.choice([1, 28]))}.get(ak, ('n%d.test' % num[0], rng.choice([1, 28, 16])))
            i = rng.choice([rng.randrange(65536), 7])
            if ak in ('fwd', 'dis') and rng.random() < 0.3:
                # longer questions
                n = '.'.join('%c' % rng.choice(b'abcxyz') * rng.randrange(1, 60) for _ in range(rng.randrange(1, 4))) + '.' + n
            q = dns.query(i, n, t, edns=rng.choice([None, None, 1232]))
            twins = rng.choice([1, 1, 2, 4])
            over = rng.choice((['u'] if udp else []) + (['t'] if tcp else []))
            if over == 'u':
                s = rng.choice(socks)
                l = [a for a in udp if (':' in a[0]) == s.v6]
                for a in rng.sample(l, min(len(l), twins)):
                    if (s, a, i) not in used:
                        used.add((s, a, i))
                        jobs.append(['u', s, a, q, n, t, ak, twins])
            else:
                for a in rng.sample(tcp, min(len(tcp), twins)):
                    x = conn(a)
                    if (x, a, i) not in used:
                        used.add((x, a, i))
                        jobs.append(['t', x, a, q, n, t, ak, twins])
        rng.shuffle(jobs)
        for s in socks:
            s.rx = []
        for l in conns.values():
            for x in l:
                x.rx = []
        todo = list(jobs)
        got = {}

        def collect():
            for j in jobs:
                if j[0] == 'u':
                    got[id(j)] = [m for m, a in j[1].rx if a == j[2] and m[:2] == j[3][:2] and wl.qinfo(m)[1:3] == (j[4], j[5])]
                else:
                    got[id(j)] = [x[1] for x in j[1].rx if x[1][:2] == j[3][:2] and wl.qinfo(x[1])[1:3] == (j[4], j[5])]
            return all(got.values())
        for _ in range(6):
            for j in todo:
                if j[0] == 'u':
                    j[1].send(j[3], j[2])
                else:
                    j[1].send(j[3])
            w.run(collect, 1.0)
            collect()
            todo = [j for j in jobs if not got[id(j)] and j[0] == 'u']
            if not todo:
                break
            c.count('sent_again', len(todo))
        w.run(collect, 2.0)
        w.run(None, 0.02)
        collect()
        for j in jobs:
            c.ev()
            l = got[id(j)]
            where = '%s %s, asked at %s (number %d of %d)' % (j[4], j[6], text(j[2]), (udp if j[0] == 'u' else tcp).index(j[2]) + 1,
                                                               len(udp if j[0] == 'u' else tcp))
            if not l:
                if j[0] == 't' and j[1].closed:
                    continue
                strange = [a for m, a in j[1].rx if m[:2] == j[3][:2] and a != j[2]] if j[0] == 'u' else []
                c.live('no-reply', '%s over %s: no reply from there%s' % (where, j[0], ', but from %s' % strange if strange else ''))
                return
            e = due(j[6], j[4], j[5], l[0])
            if e:
                c.bad('wrong-reply', '%s: %s: %s' % (where, e, l[0].hex()))
                return
            c.seen(kind, j[0], ':' in j[2][0], (udp if j[0] == 'u' else tcp).index(j[2]), j[6], j[7])
        # nothing came from, or went to, anywhere else
        for s in socks:
            for m, a in s.rx:
                if not any(j[0] == 'u' and j[1] is s and j[2] == a and j[3][:2] == m[:2] for j in jobs):
                    # (a late answer to a query of an earlier round may carry an identifier used again)
                    if a in udp and (m[:2], wl.qinfo(m)[1]) in {(x[3][:2], x[4]) for x in jobs if x[1] is s} and (s, a, m[:2], wl.qinfo(m)[1]) not in old:
                        c.bad('wrong-address', 'a reply came from %s, which was not asked this: %s' % (text(a), m.hex()))
                        return
        old |= {(j[1], j[2], j[3][:2], j[4]) for j in jobs if j[0] == 'u'}
        c.count('replies_checked', len(jobs))
        if kind == 'restart' and rd % 4 == 3:
            # connections are open, some are closed by the client afterwards
            for a in tcp:
                x = conn(a)
                x.send(dns.query(9, 'last.test', 1))
                w.run(lambda: x.rx, 2)
            if not ran():
                d.advance(100001)
                w.run(ran, 10)
            if ran():
                c.count('ended_while_script_ran')
            # (the process only, not its group)
            d.killed = True
            os.kill(d.p.pid, rng.choice([9, 15]))
            d.p.wait(10)
            d.kill()
            w.run(None, 0.05)
            try:
                os.unlink(d.dir + '/ran')
            except OSError:
                pass
            for l in conns.values():
                for x in l:
                    if not x.closed:
                        x.close()
            conns.clear()
            d.start()
            w.daemons.remove(d)
            c.count('restarts')
            if not up(False):
                return
    for h in hold:
        h.close()
    c.check_daemons()
