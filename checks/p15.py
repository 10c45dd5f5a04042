"""P15: reloading lists and groups under traffic is atomic, complete and harmless."""
import os, random
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one query answered while lists are reloaded in the background. Every list (hosts, redirects, disabled names, '
        'substitutions, group files) is a single-writer register: an answer must be the one some version of the list gives that was '
        'in force between sending and receiving, and once an answer of a newer version was received no later query may see an older '
        'one. Non-trivial: distinct by (scenario, list, kind of entry, version parity, before/during/after the switch).')
ASSUMPTIONS = ['a query lost while its group is replaced is answered when its client sends it again',
               'a list file is replaced atomically (rename), as an editor or a download does it',
               'time is virtual: the reload interval is made to pass']

LISTS = ('hosts', 'alias', 'dis', 'sub', 'grp')


def scenarios(tier, seed):
    k = 8 if tier == 'thorough' else 2
    out = []
    for i in range(k):
        for kind in ('plain', 'noise', 'big', 'tcp', 'broken', 'nosource'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


class Lists:
    """What version v of every list says."""
    def __init__(self, kind, ups):
        self.kind, self.ups = kind, ups
        self.n = 800 if kind == 'big' else 60

    def present(self, lst, k, v):
        """Some entries come and go with versions, others stay."""
        if k % 3 == 0:
            return True
        return (k + v) % 2 == 0

    def files(self, v):
        f = {}
        h = []
        for k in range(self.n):
            if self.present('hosts', k, v):
                h.append('10.%d.%d.%d h%d.hosts.test' % (v % 250, k // 250, k % 250, k))
            if self.present('alias', k, v):
                h.append('t%d.v%d.target.test a%d.alias.test' % (k, v, k))
        f['hsrc'] = '\n'.join(h) + '\n'
        f['dl'] = '\n'.join('d%d.dis.test' % k for k in range(self.n) if (k + v) % 2 == 0) + '\n'
        f['sub'] = '\n'.join('192.0.%d.%d 198.%d.%d.%d' % (k // 250, k % 250, v % 250, k // 250, k % 250)
                             for k in range(self.n) if self.present('sub', k, v)) + '\n'
        pr = 'TCP' if self.kind == 'tcp' else 'UDP'
        names = '\n'.join('g%d.grp.test' % k for k in range(self.n) if self.present('grp', k, v))
        f['grp'] = 'PROTOCOL %s\nSERVER %s\nPARALLEL OFF\n%s\n' % (pr, self.ups[v % 2].addr, names)
        return f

    def query(self, lst, k):
        return {'hosts': 'h%d.hosts.test', 'alias': 'a%d.alias.test', 'dis': 'd%d.dis.test', 'sub': 's%d.sub.test',
                'grp': 'g%d.grp.test'}[lst] % k

    def expect(self, lst, k, v):
        """The answer section version v leads to, as a tuple of (type, value)."""
        if lst == 'hosts':
            return (('A', '10.%d.%d.%d' % (v % 250, k // 250, k % 250)),) if self.present(lst, k, v) else (('A', '203.0.113.2'),)
        if lst == 'alias':
            if self.present(lst, k, v):
                return (('C', 't%d.v%d.target.test' % (k, v)), ('A', '203.0.113.2'))
            return (('A', '203.0.113.2'),)
        if lst == 'dis':
            return () if (k + v) % 2 == 0 else (('A', '203.0.113.2'),)
        if lst == 'sub':
            return (('A', ('198.%d.%d.%d' % (v % 250, k // 250, k % 250)) if self.present(lst, k, v) else
                     '192.0.%d.%d' % (k // 250, k % 250)),)
        return (('A', '203.0.113.%d' % (v % 2 if self.present(lst, k, v) else 2)),)


def run(c, kind, rnd):
    w, rng = c.world(), c.rng

    def handler(idx):
        def handle(srv, q, proto, reply):
            try:
                labels, n, t, k, e = wl.qinfo(q)
            except Exception:
                return
            ip = '203.0.113.%d' % idx
            if n.endswith('.sub.test'):
                i = int(n[1:].split('.')[0])
                ip = '192.0.%d.%d' % (i // 250, i % 250)
            rd = bytes(int(x) for x in ip.split('.'))
            reply(dns.response(q, [dns.rr(dns.ptr(12), 1, 60, rd)]), delay=rng.choice([0, 0, 0, 0.003, 0.02]))
            if proto == 'udp' and rng.random() < 0.05:
                reply(b'')
                c.count('empty_datagrams')
        return handle
    ups = [w.upstream('u%d' % i, handler(i), tcp=True) for i in range(3)]
    L = Lists(kind, ups)
    files = L.files(0)
    conf = ['LogOn false', 'UseCache false', 'BlockIpv6WhenIpv4Exists false', 'OverrideTTL -1',
            'Hosts file://{DIR}/hsrc', 'HostsDownloadPath {DIR}/hdl', 'ModulesUpdateInterval 1', 'HostsRetryInterval 1',
            'ReloadDisabledList true', 'DisabledList {DIR}/dl', 'ReloadIPSubstituting true', 'IPSubstitutingFile {DIR}/sub',
            'ReloadGroupFile true', 'UDPGroup %s * off' % ups[2].addr, 'GroupFile {DIR}/grp']
    files['hdl'] = files['hsrc']
    if kind == 'tcp':
        conf += ['EnableUDPtoTCP true']
    if kind == 'broken':
        files['grp2'] = 'PROTOCOL UDP\nSERVER %s\nPARALLEL OFF\nother.test\n' % ups[2].addr
        conf += ['GroupFile {DIR}/grp2', 'TCPGroup %s tcp.test off no' % ups[2].addr]
    d = c.start(w, conf, files=files)
    clients = [w.client(d) for _ in range(10 if kind != 'tcp' else 6)]
    st = {'v': 0, 'written': 0, 'min': {l: 0 for l in LISTS}, 'stop': False, 'phase': 'before'}
    # min[l]: the newest version whose answer was received; a query sent now may not see an older one
    pend = {}
    seq = [0]
    hist = []

    def send(cl):
        seq[0] += 1
        lst = rng.choice(LISTS if kind != 'tcp' else LISTS + ('hosts', 'dis', 'hosts', 'dis'))
        k = rng.randrange(min(L.n, 60)) if rng.random() < 0.7 else rng.randrange(L.n)
        q = dns.query(seq[0] & 0xffff, L.query(lst, k), 1)
        pend[cl] = {'lst': lst, 'k': k, 'q': q, 'low': st['min'][lst], 'at': w.loop.now(), 'n': 1, 'last': w.loop.now()}
        cl.send(q)

    def on(cl, m):
        p = pend.get(cl)
        if p is None or m[:2] != p['q'][:2]:
            return          # answer to an earlier transmission
        try:
            r = dns.parse(m)
        except dns.Bad as e:
            c.bad('malformed', 'reply does not parse: %s %s' % (e, m.hex()))
            st['stop'] = True
            return
        if not r.questions or r.questions[0][0] != L.query(p['lst'], p['k']):
            return
        got = tuple(('A', x.value) if x.type == 1 else ('C', '.'.join(z.decode('latin-1') for z in x.value) if isinstance(
            x.value, (tuple, list)) else str(x.value)) for x in r.an)
        lst, k = p['lst'], p['k']
        okv = [v for v in range(p['low'], st['written'] + 1) if L.expect(lst, k, v) == got]
        c.ev()
        c.count('answers_' + lst)
        c.seen(kind, lst, k % 3 == 0, st['written'] % 2, st['phase'], len(okv))
        if p['n'] > 1:
            c.count('answered_after_retransmission')
        if not okv:
            older = [v for v in range(0, p['low']) if L.expect(lst, k, v) == got]
            c.bad('stale' if older else 'torn', '%s (list %s): answer %r; versions that may be in force are %d..%d, giving %r%s' % (
                L.query(lst, k), lst, got, p['low'], st['written'], [L.expect(lst, k, v) for v in range(p['low'], st['written'] + 1)],
                '; it is what version %r said' % older if older else ''))
            st['stop'] = True
            return
        # only an unambiguous answer moves the register
        if len(okv) == 1 and okv[0] > st['min'][lst]:
            st['min'][lst] = okv[0]
        if not st['stop']:
            send(cl)
    for cl in clients:
        cl.cb = on
        send(cl)

    def nudge():
        for cl, p in pend.items():
            if w.loop.now() - p['last'] > 1.0:
                p['n'] += 1
                p['last'] = w.loop.now()
                c.count('retransmissions')
                cl.send(p['q'])

    def pump(cond, timeout, step=1.1, pause=2.0 if kind == 'tcp' else 0.12):
        """Let virtual seconds pass while the traffic goes on."""
        end = w.loop.now() + timeout
        while w.loop.now() < end:
            if st['stop'] or cond():
                return True
            d.advance(step)
            w.run(cond, pause)
            nudge()
            for p in pend.values():
                if p['n'] > 12:
                    c.live('unanswered', '%s was sent %d times over %.1f s and not answered' % (
                        L.query(p['lst'], p['k']), p['n'], w.loop.now() - p['at']))
                    st['stop'] = True
                    return True
            if not d.alive():
                st['stop'] = True
                return True
        return cond()
    if kind == 'noise':
        d.noise(1500)
    rounds = {'big': 3, 'tcp': 3}.get(kind, 5) * (4 if c.thorough() else 1)
    for rd in range(rounds):
        v = st['written'] + 1
        st['phase'] = 'during'
        fs = L.files(v)
        st['written'] = v
        order = list(fs)
        rng.shuffle(order)
        if kind == 'nosource':
            os.rename(os.path.join(d.dir, 'hsrc'), os.path.join(d.dir, 'hsrc.gone'))
            for n in order:
                if n != 'hsrc':
                    d.write(n, fs[n])
            # nothing may change in the hosts; the service goes on
            t0 = c.evaluations
            pump(lambda: c.evaluations > t0 + 150, 6)
            d.write('hsrc', fs['hsrc'])
        else:
            if kind == 'broken':
                d.write('grp2', rng.choice([
                    'SERVER %s\nother.test\n' % ups[2].addr, 'PROTOCOL NONE\nSERVER %s\nother.test\n' % ups[2].addr,
                    'PROTOCOL UDP\nother.test\n', 'PROTOCOL UDP\nSERVER ,\nPARALLEL ON\nother.test\n',
                    'PROTOCOL TCP\nSERVER %s\nPROXY ,\nother.test\n' % ups[2].addr, 'PROTOCOL *\nother.test\n',
                    'PROTOCOL TCP\nSERVER ,\nother.test\n']))
            for n in order:
                d.write(n, fs[n])
        if kind == 'broken':
            # the groups cannot be built: the old ones must go on serving, whatever else is reloaded
            t0 = c.evaluations
            pump(lambda: c.evaluations > t0 + 250, 6)
            if st['stop']:
                break
            if st['min']['grp'] >= v:
                c.bad('broken-applied', 'a group set with a broken file took effect')
                break
            c.count('broken_reloads')
            d.write('grp2', 'PROTOCOL UDP\nSERVER %s\nPARALLEL OFF\nother.test\n' % ups[2].addr)
        if not pump(lambda: all(st['min'][l] >= v for l in LISTS), 20):
            c.live('not-applied', 'version %d of %r did not take effect though many reload intervals passed' % (
                v, [l for l in LISTS if st['min'][l] < v]))
            break
        if st['stop']:
            break
        c.count('versions_switched')
        st['phase'] = 'after'
        t0 = c.evaluations
        pump(lambda: c.evaluations > t0 + (40 if kind == 'tcp' else 300), 6, step=0.3)
        if st['stop']:
            break
    c.sample({'kind': kind, 'versions': st['written'], 'answers': c.evaluations})
    st['stop'] = True
    if not c.violations:
        c.alive_check(d, 'reloads')
