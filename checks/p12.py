"""P12: a file cache survives any end of the process."""
import os, random, signal, struct
import dns, wl
from p10 import Facts, judge

VARIANTS = ['asan', 'crash']
LEVEL = 'exploration'
RULE = ('A case is one query after the daemon was ended (killed at a random moment under load, killed inside the storing of a '
        'reply, terminated, or idle) and restarted on its cache file, many cycles on one file, with virtual time moved while it '
        'was down. Answers must be justified by recorded server statements with the remaining TTL; everything settled before '
        'the end and still valid must be answered without a server, everything expired must be asked. Non-trivial: distinct by '
        '(kind of end, cycle, type, settled/unsettled/expired, records).')
ASSUMPTIONS = ['the file system keeps what was stored in the mapping (process crash, not power loss)',
               'crash points are sampled: random times under load, the calls of time() inside the storing code, and single stores into the mapping']


def scenarios(tier, seed):
    k = 10 if tier == "thorough" else 4
    out = []
    for i in range(k):
        for kind in ('idle', 'term', 'storm', 'point', 'full', 'noreload'):
            out.append(('%s-%d' % (kind, i), cycles, {'kind': kind, 'rnd': i}))
        out.append(('mismatch-%d' % i, mismatch, {'rnd': i}))
        out.append(('stores-%d' % i, stores, {'rnd': i}))
    return out


TYPES = [1, 28, 16, 15, 12, 65, 2, 5]


def content(n, t):
    z = wl.h('set', n, t, n=3)
    cnt = 1 + (z[0] % 4 if t != 5 else 0)
    ttl = [40, 200, 1500, 7200][z[1] % 4]
    out = []
    for j in range(cnt):
        if t == 16:
            ln = (z[2] * 7 + j * 31) % 250
            rd = bytes([ln]) + (wl.h(n, t, j) * 16)[:ln]
        else:
            rd = wl.rdata_for(n, t, (0, j))
        out.append(rd)
    return ttl, out


class Setup:
    def __init__(self, c, extra=(), size=None, **kw):
        self.c = c
        self.w = w = c.world()
        self.F = Facts()
        self.asked = {}
        self.nasked = 0

        def handle(srv, q, proto, reply):
            try:
                labels, n, t, k, e = wl.qinfo(q)
            except Exception:
                return
            if n.endswith('ready.probe'):
                reply(dns.response(q, [dns.rr(dns.ptr(12), t, 0, wl.rdata_for(n, t))]))
                return
            self.nasked += 1
            self.asked[(n, t)] = self.asked.get((n, t), 0) + 1
            ttl, rds = content(n, t)
            m = dns.response(q, [dns.rr(dns.ptr(12), t, ttl, rd) for rd in rds])
            self.F.say(m)
            reply(m)
        self.u = w.upstream('u', handle)
        self.size = size or c.rng.choice([150000, 524288, 1048576])
        self.conf = ['LogOn %s' % c.rng.choice(['true', 'false']), 'LogLevel 5', 'UDPGroup %s * off' % self.u.addr, 'UseCache true', 'MemoryCache false',
                     'CacheFile {DIR}/cache', 'OverrideTTL -1', 'CacheParallel false', 'CacheSize %d' % self.size] + list(extra)
        self.d = c.start(w, self.conf, **kw)
        self.F.d = self.d
        self.qid = 0

    def ask(self, cl, n, t):
        """-> (reply or None, forwarded)"""
        self.qid = (self.qid + 1) & 0xffff
        nr, na = len(cl.rx), self.asked.get((n, t), 0)
        cl.send(dns.query(self.qid, n, t))
        self.w.run(lambda: len(cl.rx) > nr, 6)
        if len(cl.rx) == nr:
            self.c.live('unanswered', 'no answer to %s type %d' % (n, t))
            return None, False
        m = cl.rx[-1][1]
        try:
            r = dns.parse(m)
        except dns.Bad as e:
            self.c.bad('malformed', '%s: %s' % (e, m.hex()))
            return None, False
        if [(a[0], a[1]) for a in r.questions] != [(n, t)] or r.id != self.qid:
            self.c.bad('wrong-question', 'asked %s type %d got %s' % (n, t, m.hex()))
            return None, False
        return r, self.asked.get((n, t), 0) > na

    def up(self):
        """Restarted daemon must serve."""
        self.d.start()
        if not self.d.ready():
            self.c.live('not-serving', 'the daemon does not serve after a restart on its cache file:\n' + self.d.stdout()[-1200:])
            return False
        return True


def cycles(c, kind, rnd):
    rng = c.rng
    s = Setup(c, ['ReloadCache %s' % ('false' if kind == 'noreload' else 'true')], 102400 if kind == 'full' else None)
    d, w = s.d, s.w
    names = ['p%d.f.test' % i for i in range(60 if kind != 'full' else 500)]
    ncyc = 12 if c.thorough() else 5
    settled = {}
    for cyc in range(ncyc):
        cl = w.client(d)
        # a settled part, one query at a time
        for i in range(60):
            t = rng.choice(TYPES)
            n = ('al-' if t == 5 else '') + rng.choice(names)
            r, fwd = s.ask(cl, n, t)
            if r is None:
                return
            judge(c, s.F, n, t, r, d.vtime())
            if fwd:
                settled[(n, t)] = d.vtime()
        # load until the end
        if kind in ('storm', 'point', 'full'):
            cls = [w.client(d) for _ in range(6)]
            if kind == 'point':
                # kept: what was settled; the rest is stored while the process dies
                d._set(3, rng.randrange(1, 40))
                d.killed = True
                d.expect_alive = False
            loads = set()
            stop_at = rng.randrange(60, 400)
            for i in range(400):
                t = rng.choice(TYPES)
                n = ('al-' if t == 5 else '') + rng.choice(names)
                loads.add((n, t))
                cl2 = rng.choice(cls)
                cl2.send(dns.query(rng.randrange(65536), n, t))
                if i % 15 == 14:
                    w.run(None, 0.001)
                if rng.random() < 0.01:
                    s.F.jump(61)
                if kind != 'point' and i >= stop_at or kind == 'point' and not d.alive():
                    break
            c.count('crashes_under_load')
            if kind == 'point':
                w.run(lambda: not d.alive(), 2)
                c.count('crash_points_hit', 0 if d.alive() else 1)
                d._set(3, 0)
        d.kill(signal.SIGTERM if kind == 'term' else signal.SIGKILL)
        w.run(None, 0.03)      # what the sockets still hold is stated before the restart
        d.advance(rng.choice([0, 5, 50, 300, 2000]))
        if not s.up():
            return
        d.expect_alive = True
        cl = w.client(d)
        keys = sorted(settled)
        rng.shuffle(keys)
        for n, t in keys[:80]:
            r, fwd = s.ask(cl, n, t)
            if r is None:
                return
            now = d.vtime()
            judge(c, s.F, n, t, r, now)
            if c.violations:
                return
            ttl, rds = content(n, t)
            st = s.F.f.get((n, t, dns._value(rds[0], 0, len(rds[0]), t)), [])
            age = now - settled[(n, t)]
            cls_ = 'valid' if age < ttl - 2 else 'expired' if age > ttl + 2 else 'edge'
            c.ev()
            c.seen(kind, cyc, t, cls_, len(r.an))
            c.count(cls_)
            if not fwd and cls_ == 'expired' and not any(now - v < ttl + 2 for v, _ in st):
                c.bad('expired-served', '%s type %d served at age %.1f of TTL %d' % (n, t, age, ttl))
                return
            if kind == 'noreload':
                if not fwd and not any(now - v < 3 for v, _ in st):
                    c.bad('reloaded-although-off', '%s type %d was answered from the old cache file with ReloadCache off' % (n, t))
                    return
            elif fwd and cls_ == 'valid' and kind != 'full':
                c.bad('lost', '%s type %d, stored %.1f s ago with TTL %d, was lost by the %s restart %d' % (n, t, age, ttl, kind, cyc))
                return
            if not fwd and kind != 'point' and len(r.an) != len(rds):
                # all settled sets are whole
                c.bad('partial-set', '%s type %d: %d of %d records after the %s restart' % (n, t, len(r.an), len(rds), kind))
                return
            if fwd:
                settled[(n, t)] = now
        c.count('restarts')
        if cyc < 2:
            c.sample({'kind': kind, 'cycle': cyc, 'settled': len(settled), 'time_down': d.offset()})
    c.alive_check(d, 'the restarts')


def stores(c, rnd):
    """Kill at chosen stores into the cache file: while a reply is stored, in new and in reused room, and while expired items are swept."""
    rng = c.rng
    s = Setup(c, ['ReloadCache true'], 204800, variant='crash')
    d, w = s.d, s.w
    settled, num, cost = {}, 0, {}
    cl = w.client(d)

    def fresh():
        nonlocal num
        num += 1
        t = rng.choice(TYPES)
        return ('al-' if t == 5 else '') + 's%d.f.test' % num, t

    def learn(k):
        for _ in range(k):
            n, t = fresh()
            r, fwd = s.ask(cl, n, t)
            if r is None:
                return False
            settled[(n, t)] = d.vtime()
        return True
    if not learn(25):
        return
    for cyc in range(220 if c.thorough() else 34):
        act = rng.choice(['add', 'add', 'sweep'])
        n, t = fresh()
        before = d._get(5)
        # beyond the last store nothing happens
        top = cost.get(act, 40)
        k = rng.randrange(1, top + 4)
        if act == 'sweep':
            # something expires, so the sweep has work to do
            d.advance(rng.choice([62, 210, 1600]))
        d._set(4, k)
        d.killed = True
        d.expect_alive = False
        if act == 'add':
            cl.send(dns.query(cyc, n, t))
            nr = len(cl.rx)
            w.run(lambda: not d.alive() or len(cl.rx) > nr, 6)
            w.run(None, 0.002)
        else:
            d.advance(60)
            for _ in range(25):
                w.run(lambda: not d.alive(), 0.02)
                if not d.alive():
                    break
                d.advance(3)
        d._set(4, 0)
        dead = not d.alive()
        if not dead:
            cost[act] = min(max(d._get(5) - before, 10), 80)
            d.kill()
        c.count('killed_in_' + act if dead else 'complete_' + act)
        w.run(None, 0.01)
        d.advance(rng.choice([0, 0, 3, 30]))
        if not s.up():
            return
        d.expect_alive = True
        cl = w.client(d)
        keys = sorted(settled)
        rng.shuffle(keys)
        for n2, t2 in keys[:14] + [(n, t)] * 2:
            r, fwd = s.ask(cl, n2, t2)
            if r is None:
                return
            now = d.vtime()
            judge(c, s.F, n2, t2, r, now)
            if c.violations:
                return
            c.ev()
            c.seen('stores', act, dead, k, t2, fwd)
            if (n2, t2) in settled:
                ttl, rds = content(n2, t2)
                age = now - settled[(n2, t2)]
                if fwd and age < ttl - 2:
                    c.bad('lost', '%s type %d, stored %.1f s ago with TTL %d, was lost when the process was killed at store %d of %s' % (
                        n2, t2, age, ttl, k, act))
                    return
                if not fwd and len(r.an) != len(rds):
                    c.bad('partial-set', '%s type %d: %d of %d records' % (n2, t2, len(r.an), len(rds)))
                    return
            if fwd:
                settled[(n2, t2)] = now
        if cyc < 2:
            c.sample({'activity': act, 'killed at store': k, 'died': dead})
    c.alive_check(d, 'the crash points')


def mismatch(c, rnd):
    """Files of another size or version, or no cache files at all, are replaced if allowed; then nothing old is served."""
    rng = c.rng
    s = Setup(c, ['ReloadCache true', 'OverwriteCache true'], 204800)
    d, w = s.d, s.w
    f = os.path.join(d.dir, 'cache')
    cl = w.client(d)
    for i in range(40):
        n, t = 'p%d.f.test' % rng.randrange(20), rng.choice(TYPES[:-1])
        if s.ask(cl, n, t)[0] is None:
            return
    for how in ('smaller', 'larger', 'version', 'empty', 'short', 'text', 'random'):
        d.kill()
        raw = bytearray(open(f, 'rb').read())
        conf = d.config
        if how in ('smaller', 'larger'):
            conf = conf.replace('CacheSize 204800', 'CacheSize %d' % (102400 if how == 'smaller' else 409600))
        elif how == 'version':
            raw[0:4] = struct.pack('<I', rng.choice([0, 22, 24, 9999]))
        elif how == 'empty':
            raw = b''
        elif how == 'short':
            raw = bytes(rng.randrange(1, 4))
        elif how == 'text':
            raw = b'127.0.0.1 localhost\n' * 20
        else:
            raw = bytes(random.Random(rnd).randrange(32, 256) for _ in range(5000))
        with open(f, 'wb') as o:
            o.write(raw)
        with open(os.path.join(d.dir, 'config'), 'w') as o:
            o.write(conf)
        before = dict(s.asked)
        if not s.up():
            return
        cl = w.client(d)
        for i in range(25):
            n, t = 'p%d.f.test' % rng.randrange(20), rng.choice(TYPES[:-1])
            first = s.asked.get((n, t), 0) == before.get((n, t), 0)
            r, fwd = s.ask(cl, n, t)
            if r is None:
                return
            judge(c, s.F, n, t, r, d.vtime())
            c.ev()
            c.seen('mismatch', how, t, first)
            if first and not fwd:
                c.bad('incompatible-used', '%s type %d was answered from an incompatible cache file (%s)' % (n, t, how))
                return
        c.count('incompatible_files')
        # back to the configured size
        d.kill()
        with open(os.path.join(d.dir, 'config'), 'w') as o:
            o.write(d.config)
        os.unlink(f)
        if not s.up():
            return
        cl = w.client(d)
        for i in range(25):
            if s.ask(cl, 'p%d.f.test' % rng.randrange(20), rng.choice(TYPES[:-1]))[0] is None:
                return
    c.alive_check(d, 'the incompatible files')
