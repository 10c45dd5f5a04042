"""P18: a hosts name mapped to an address list gets the fastest reachable address of that list."""
import os, socket, struct
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one observed check of the lists: addresses of generated lists accept at once, accept after 1 s or 3 s, refuse at '
        'once or after 1 s, or stay silent (by real listeners with full or closed backlogs), the assignment changes between phases, '
        'and the answers for names mapped to the lists are polled throughout. Every answer must carry one address of its list, and '
        'once the checks after a change were seen, the first to accept. Non-trivial: distinct by (what the addresses of the list did, '
        'position of the chosen address, how the name is mapped, phase).')
ASSUMPTIONS = ['addresses that accept within the same second are equally fast', 'two check intervals, and the 5 s each silent list takes, '
               'are allowed before a change is followed', 'the middle one of the measured intervals is judged']


def scenarios(tier, seed):
    k = 4 if tier == 'thorough' else 1
    out = []
    for i in range(k):
        for kind in ('basic', 'late', 'none', 'many', 'names', 'solo', 'late2', 'pace'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


class Addr:
    """One address:port whose listener behaves as told."""
    def __init__(self, w, rng, pool, port=None):
        self.w, self.state = w, None
        self.ls, self.fill, self.accepted, self.gen = None, [], 0, 0
        self.syn, self.times = 0, []
        while True:
            self.ip = '127.%d.%d.%d' % (rng.randrange(1, 200), rng.randrange(256), rng.randrange(1, 255))
            if self.ip in pool:
                continue
            pool.add(self.ip)
            self.port = port or rng.randrange(10000, 30000)
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind((self.ip, self.port))
                s.close()
                break
            except OSError:
                s.close()

    def close(self):
        self.gen += 1
        if self.ls:
            self.w.loop.unreg(self.ls)
            self.ls.close()
            self.ls = None
        for s in self.fill:
            s.close()
        self.fill = []

    def listen(self, n):
        for _ in range(50):
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind((self.ip, self.port))
                s.listen(n)
                break
            except OSError:
                s.close()
                self.w.run(None, 0.02)
        else:
            raise OSError('cannot listen on %s:%d' % (self.ip, self.port))
        s.setblocking(False)
        self.ls = s

    def block(self):
        """Listening with a full backlog: connection attempts are dropped."""
        if self.ls is None:
            self.listen(0)
        self.w.loop.unreg(self.ls)
        for _ in range(2):
            s = socket.socket()
            s.setblocking(False)
            s.connect_ex((self.ip, self.port))
            self.fill.append(s)

    def on(self, s):
        try:
            while True:
                x, a = s.accept()
                self.accepted += 1
                self.times.append(self.w.loop.now())
                x.close()
        except OSError:
            pass

    def set(self, state):
        self.close()
        self.state, self.trying, self.acted = state, None, False
        if state == 'open':
            self.listen(64)
            self.w.loop.reg(self.ls, self.on)
        elif state != 'refuse':
            self.block()

    def tick(self, syn):
        """syn: local ports of connection attempts to this address that were dropped so far
        (they are repeated 1 s and 3 s after the first)."""
        syn -= {s.getsockname()[1] for s in self.fill}
        if self.trying is not None and self.trying not in syn:
            # accepted, refused or given up
            self.trying = None
            if self.acted:
                self.acted = False
                if self.ls is not None:
                    self.on(self.ls)
                self.block()
        if self.trying is None and syn:
            self.trying, self.since = min(syn), self.w.loop.now()
            self.syn += 1
        if self.trying is not None and not self.acted and self.state != 'silent' and \
                self.w.loop.now() - self.since > (1.5 if self.state == 'slow3' else 0.25):
            self.acted = True
            self.gen += 1
            for s in self.fill:
                s.close()
            self.fill = []
            if self.state == 'late-refuse':
                self.ls.close()
                self.ls = None
            else:
                self.on(self.ls)
                self.w.loop.reg(self.ls, self.on)


def syns():
    """Connections in SYN_SENT: remote end -> local ports."""
    out = {}
    with open('/proc/net/tcp') as f:
        next(f)
        for l in f:
            x = l.split()
            if x[3] == '02':
                a, p = x[2].split(':')
                out.setdefault((socket.inet_ntoa(struct.pack('<I', int(a, 16))), int(p, 16)), set()).add(int(x[1].split(':')[1], 16))
    return out


SPEED = {'open': 0, 'slow1': 1, 'slow3': 3}
PLANS = {
    'basic': [('open', 'refuse', 'silent'), ('open', 'slow1', 'refuse'), ('open', 'open', 'silent', 'refuse')],
    'late': [('late-refuse', 'slow3', 'late-refuse'), ('late-refuse', 'slow3', 'silent'), ('open', 'late-refuse', 'slow1')],
    'late2': [('slow1', 'slow3', 'refuse'), ('slow3', 'late-refuse', 'refuse'), ('slow1', 'late-refuse', 'slow3')],
    'none': [('silent', 'silent', 'refuse'), ('late-refuse', 'silent'), ('refuse', 'refuse', 'refuse'), ('open', 'refuse', 'refuse')],
    'many': [('open',) + ('refuse',) * 20 + ('silent',) * 9, ('slow1',) + ('refuse',) * 12 + ('slow3',) * 3],
    'names': [('open', 'refuse', 'refuse'), ('open', 'silent')],
    'pace': [('open', 'refuse'), ('open',)],
    'solo': [('open',), ('refuse',), ('open', 'refuse')],
}


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    u = w.upstream('u', wl.std_handler(salt=7), tcp=True)
    pool, lists = set(), []
    n = {'basic': 4, 'late': 1, 'late2': 1, 'none': 1, 'many': 1, 'names': 3, 'solo': 3, 'pace': 5}[kind]
    block6 = rng.random() < 0.5
    conf = ['LogOn false', 'UDPGroup %s * off' % u.addr, 'UseCache false', 'BlockIpv6WhenIpv4Exists %s' % str(block6).lower()]
    defs, adds, hosts, filed = [], [], [], []
    for i in range(n):
        m = rng.choice([len(p) for p in PLANS[kind]]) if kind != 'many' else 30
        name = rng.choice(['list%d', 'L%d', 'fast-%d', 'x%d.y']) % i
        same = rng.randrange(10000, 30000)
        addrs = [Addr(w, rng, pool, same if rng.random() < 0.5 else None) for _ in range(m)]
        w.servers += addrs
        l = {'name': name, 'addrs': addrs, 'ips': {a.ip: a for a in addrs}, 'names': [], 'cur': addrs[0].ip}
        l['every'] = rng.choice([300, 500, 900]) if kind != 'pace' else [250, 1250, 2100, 700, 1900][i] + rng.randrange(100)
        lists.append(l)
        defs.append('GoodIPList %s %d' % (name, l['every']))
        adds += ['GoodIPListAddIP %s%s%s:%d' % (name, rng.choice([' ', '  ', '\t']), a.ip, a.port) for a in addrs]
        for k in range(3 if kind == 'names' else 2):
            h = 'n%d-%d.list.test' % (i, k)
            if k == 1:
                line = '<%s> %s' % (name, '*.pat%d.test' % i)
                l['names'] += ['a.pat%d.test' % i, 'B.c.PAT%d.test' % i]
            else:
                line = '<%s> %s' % (name, h)
                l['names'].append(h)
            (filed if rng.random() < 0.4 else hosts).append(line)
    if rng.random() < 0.5:
        # the addresses of different lists are mixed in the configuration, each list keeps its order
        order = {l['name']: [x for x in adds if x.split()[1] == l['name']] for l in lists}
        adds = []
        while any(order.values()):
            adds.append(order[rng.choice([k for k in order if order[k]])].pop(0))
    conf += defs + adds + ['AppendHosts ' + x for x in hosts]
    files = {}
    if filed:
        files['h'] = '\n'.join(filed) + '\n'
        conf += ['Hosts file://{DIR}/h', 'HostsDownloadPath {DIR}/hdl']

    def assign(first):
        for l in lists:
            p = rng.choice(PLANS[kind])
            m = len(l['addrs'])
            st = list(p)[:m] + [rng.choice(['refuse', 'silent'] if kind == 'basic' else ['refuse'])] * max(0, m - len(p))
            if kind == 'many' and m > len(p):
                st = list(p) + ['refuse'] * (m - len(p))
            rng.shuffle(st)
            if kind == 'many' and rng.random() < 0.6:
                st.sort(key=lambda x: x in SPEED)
            # the choice so far goes away as often as not
            for a, s in zip(l['addrs'], st):
                if a.state != s or s != 'open':
                    a.set(s)
            l['plan'] = tuple(sorted(st))
            best = min([SPEED[s] for s in st if s in SPEED], default=None)
            l['want'] = None if best is None else {a.ip for a in l['addrs'] if SPEED.get(a.state) == best}

    assign(True)
    for l in lists:
        if l['want'] is None:
            l['cur'] = l['addrs'][0].ip
    d = c.start(w, conf, files=files)
    cls = [w.client(d), w.tclient(d)]
    stop = {'v': False}

    def watch():
        if stop['v']:
            return
        try:
            s = syns()
        except OSError:
            s = {}
        for l in lists:
            for a in l['addrs']:
                if a.state in ('slow1', 'slow3', 'late-refuse', 'silent'):
                    a.tick(s.get((a.ip, a.port), set()))
        w.loop.after(0.06, watch)
    watch()
    qid = [rng.randrange(60000)]

    def ask(l, t=1):
        qid[0] = (qid[0] + 1) & 0xffff
        h = rng.choice(l['names'])
        q = dns.query(qid[0], h, t)
        cl = cls[0] if rng.random() < 0.85 else cls[1]
        nr, ns = len(cl.rx), len(u.log)
        cl.send(q)
        w.run(lambda: len(cl.rx) > nr, 5)
        if len(cl.rx) == nr:
            c.live('unanswered', 'no answer for %s' % h)
            return None
        m = cl.rx[-1][1]
        c.ev()
        try:
            g = dns.parse(m)
        except dns.Bad as e:
            c.bad('malformed', '%s: %s' % (e, m.hex()))
            return None
        if t != 1:
            seen = any(h.lower() == wl.qinfo(x)[1] and wl.qinfo(x)[2] == t for _, _, x in u.log[ns:])
            if t == 28 and block6:
                if g.an or seen:
                    c.bad('ipv6-not-blocked', '%s: IPv6 is blocked for names with IPv4 items, but the answer is %s (asked upstream: %s)' % (h, m.hex(), seen))
                    return None
            elif not g.an or g.an[0].rdata != wl.rdata_for(h, t, 7):
                c.bad('other-type', '%s type %d is not the server\'s: %s' % (h, t, m.hex()))
                return None
            c.seen(kind, 'type', t, block6)
            return ()
        if len(g.an) != 1 or g.an[0].type != 1 or wl.qinfo(m)[1] != h.lower():
            c.bad('shape', '%s: not one address record: %s' % (h, m.hex()))
            return None
        v = g.an[0].value
        if v not in l['ips']:
            c.bad('foreign-address', '%s, mapped to <%s>, was answered with %s, which is not in the list %s' % (h, l['name'], v, sorted(l['ips'])))
            return None
        return v

    if kind == 'pace':
        pace(c, w, ask, lists)
        stop['v'] = True
        c.check_daemons()
        return
    phases = {'late': 2, 'late2': 2, 'none': 3, 'many': 3}.get(kind, 4) * (3 if c.thorough() else 1)
    for ph in range(phases):
        if ph:
            assign(False)
        base = {l['name']: sum(a.accepted + a.syn for a in l['addrs']) for l in lists}
        budget = 3.0 + 7.5 * len(lists) * 2
        end = w.loop.now() + budget
        pend = [l for l in lists if l['want'] is not None]
        while pend and w.loop.now() < end:
            for l in list(pend):
                v = ask(l)
                if v is None:
                    return
                if v in l['want']:
                    pend.remove(l)
            w.run(None, 0.05)
        for l in pend:
            c.live('not-followed', 'list <%s> still gives %s after %.0f s; its addresses: %s' % (
                l['name'], ask(l), budget, {a.ip: a.state for a in l['addrs']}))
            return
        # from here on nothing changes: the right answers stay
        hold = {l['name']: sum(a.accepted + a.syn for a in l['addrs']) for l in lists}
        end = w.loop.now() + (7.5 if kind in ('none', 'late', 'late2') else 2.0)
        while w.loop.now() < end:
            for l in lists:
                v = ask(l)
                if v is None:
                    return
                if l['want'] is None:
                    if ph == 0 and l.get('first') is None:
                        l['first'] = l['cur']
                    if v != l['cur']:
                        c.bad('unreachable-chosen', 'no address of <%s> accepts (%s), but the answer changed from %s to %s' % (
                            l['name'], {a.ip: a.state for a in l['addrs']}, l['cur'], v))
                        return
                elif v not in l['want']:
                    c.bad('not-the-fastest', 'list <%s> gives %s after it gave one of %s; its addresses: %s' % (
                        l['name'], v, sorted(l['want']), {a.ip: a.state for a in l['addrs']}))
                    return
                else:
                    l['cur'] = v
                if rng.random() < 0.1 and ask(l, rng.choice([28, 28, 16, 15])) is None:
                    return
            w.run(None, 0.08)
        for l in lists:
            k = sum(a.accepted + a.syn for a in l['addrs']) - hold[l['name']]
            c.count('checks_observed', k)
            if l['want'] is not None:
                c.seen(kind, l['plan'], [a.ip for a in l['addrs']].index(l['cur']), ph > 0)
                c.count('choices_checked')
            else:
                c.count('kept_choices_checked')
                c.seen(kind, l['plan'], 'kept')
    stop['v'] = True
    c.check_daemons()


def pace(c, w, ask, lists):
    """The checks of each list are repeated at its own interval, whatever the other intervals are."""
    end = w.loop.now() + (40 if c.thorough() else 13)
    while w.loop.now() < end:
        if ask(c.rng.choice(lists)) is None:
            return
        w.run(None, 0.02)
    for l in lists:
        t = sorted(x for a in l['addrs'] for x in a.times)
        gaps = [b - a for a, b in zip(t, t[1:])][1:]
        e = l['every'] / 1000
        if not gaps:
            c.live('no-checks', 'list <%s> with an interval of %.2f s was checked %d times' % (l['name'], e, len(t)))
            continue
        mid = sorted(gaps)[len(gaps) // 2]
        c.count('intervals_measured', len(gaps))
        c.seen('pace', l['every'] // 100)
        if mid < e - 0.06 - 0.05 * e or mid > e * 1.25 + 0.3:
            c.live('wrong-interval', 'list <%s> has an interval of %.2f s, but is checked every %s s' % (
                l['name'], e, ['%.2f' % g for g in gaps]))
