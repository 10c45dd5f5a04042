"""P10: the cache answers only what a server said, while it is valid, with the time that is left."""
import time
import struct
import dns, wl
from world import Stalled

LEVEL = 'exploration'
RULE = ('A case is one client query while the cache is on; virtual time is advanced between queries so that ages fall around '
        'the TTLs, and every statement of the servers is recorded with its virtual time. The reply must be a chain of '
        'records from the asked name that servers stated, unexpired, with the remaining TTL; complete where one server reply '
        'gave the set; expired or uncacheable data must be asked again, valid data must not be. Non-trivial: distinct by '
        '(scenario, type, hit/miss/expired, chain length, number of records, transport).')
ASSUMPTIONS = ['virtual time moves by the test-bed\'s clock hook; ages within 2 s of the TTL may go either way',
               'types A, AAAA, HTTPS, TXT, CNAME, PTR, NS, MX are the cacheable ones; other types must always be asked',
               'a set that takes more than 4 KB uncompressed may be asked for again while valid']
CACHED = (1, 28, 65, 16, 5, 12, 2, 15)
OTHER = (33, 6, 257, 99)


def scenarios(tier, seed):
    k = 8 if tier == 'thorough' else 2
    out = []
    for i in range(k):
        for kind in ('seq', 'seq2', 'file', 'chain', 'sections', 'truncated', 'big', 'names', 'case', 'ignore', 'zero', 'large',
                     'control'):
            out.append(('%s-%d' % (kind, i), seq, {'kind': kind, 'rnd': i}))
        for kind in ('live', 'restart'):
            out.append(('setback-%s-%d' % (kind, i), setback, {'kind': kind, 'rnd': i}))
        for kind in ('many', 'noise', 'churn', 'churnfile', 'full', 'parallel'):
            out.append(('%s-%d' % (kind, i), many, {'kind': kind, 'rnd': i}))
    return out


class Facts:
    """Everything servers said: (name, type, value) -> [(virtual time, ttl)]."""

    def __init__(self, d=None):
        self.d = d
        self.f = {}
        self.n = 0

    def say(self, m, when=None):
        r = dns.parse(m)
        v = self.d.vtime() if when is None else when
        for x in r.rrs:
            if x.type in CACHED:
                self.f.setdefault((x.name, x.type, x.value), []).append((v, x.ttl))
                self.n += 1

    def jump(self, seconds):
        """Advance the clock while replies are on their way: they may be taken as said before or after."""
        v0 = self.d.vtime()
        self.d.advance(seconds)
        for st in self.f.values():
            st += [(self.d.vtime(), ttl) for v, ttl in st[-2:] if v0 - v < 1.0]

    def supports(self, x, now, slack=2, anyttl=False, ignore=False):
        """None if some statement supports the record, else why not."""
        st = self.f.get((x.name, x.type, x.value))
        if not st:
            return 'no server ever said this'
        for v, ttl in st:
            age = now - v
            if ignore:
                if x.ttl == ttl:
                    return None
                continue
            if age <= slack and x.ttl == ttl:
                return None
            if age < ttl + slack:
                left = ttl - age
                if abs(x.ttl - left) <= slack or (anyttl and 0 < x.ttl <= left + slack):
                    return None
        return 'served with TTL %d; said with (age, TTL) %r' % (x.ttl, [(round(now - v, 1), t) for v, t in st][-4:])


def judge(c, facts, n, t, r, now, ignore=False, anyttl=False, what='', chain=True):
    """The answer section must be a chain of supported records from n ending in type t."""
    if r.rcode or not r.an:
        return
    cur = n
    rest = list(r.an)
    hops = 0
    if t != 5:
        while True:
            nx = [x for x in rest if x.type == 5 and x.name == cur]
            if not nx:
                break
            rest = [x for x in rest if x is not nx[0]]
            hops += 1
            e = facts.supports(nx[0], now, ignore=ignore, anyttl=anyttl)
            if e:
                c.bad('unsupported-alias', '%s%s type %d answered with alias %r: %s' % (what, n, t, nx[0], e))
                return hops
            cur = nx[0].value
    for x in rest:
        if x.name != cur or x.type != t or x.klass != 1:
            c.bad('stray-record', '%s%s type %d answered with %r' % (what, n, t, r.an))
            return hops
        e = facts.supports(x, now, ignore=ignore, anyttl=anyttl)
        if e:
            c.bad('unsupported-record', '%s%s type %d answered with %r: %s' % (what, n, t, x, e))
            return hops
    if not rest:
        c.bad('no-records', '%s%s type %d answered with %r' % (what, n, t, r.an))
    vals = [(x.name, x.type, x.value) for x in r.an]
    if len(set(vals)) != len(vals):
        c.bad('duplicate-records', '%s%s type %d answered with %r' % (what, n, t, r.an))
    return hops


def conf_for(c, kind, u, u2=None):
    rng = c.rng
    conf = ['LogOn %s' % rng.choice(['true', 'false']), 'LogLevel 5',
            'UDPGroup %s * %s' % (u.addr + (',' + u2.addr if u2 else ''), 'on' if u2 else 'off'),
            'UseCache true', 'OverrideTTL -1', 'CacheParallel %s' % ('true' if kind == 'parallel' else 'false')]
    if kind in ('file', 'churnfile'):
        conf += ['MemoryCache false', 'CacheFile {DIR}/cache', 'CacheSize 204800']
    elif kind in ('churn', 'full'):
        conf += ['MemoryCache true', 'CacheSize 102400']
    else:
        conf += ['MemoryCache true', 'CacheSize %d' % rng.choice([102400, 1048576, 300000])]
    if kind == 'ignore':
        conf.append('IgnoreTTL true')
    if kind == 'control':
        conf += ['DisabledDomain off.test', 'AppendHosts 9.9.9.9 hosted.test']
    return conf


def setback(c, kind, rnd):
    """The clock is set back, while the service runs or while it does not."""
    w, rng = c.world(), c.rng
    said, ask_no = {}, {}

    def handle(srv, q, proto, reply):
        labels, n, t, k, e = wl.qinfo(q)
        ask_no[n] = ask_no.get(n, 0) + 1
        ttl = rng.choice([5, 60, 300, 3600, 86400])
        m = wl.std_answer(q, ask_no[n], ttl=ttl)
        if not n.endswith('probe'):
            said.setdefault(n, []).append([elapsed[0], time.monotonic(), ttl, [x.rdata for x in dns.parse(m).an]])
        reply(m)

    elapsed = [0.0]        # by our own clock, which is never set back
    u = w.upstream('u', handle)
    conf = ['LogOn false', 'UDPGroup %s * off' % u.addr, 'UseCache true', 'OverrideTTL -1', 'MemoryCache false', 'CacheFile {DIR}/cache', 'CacheSize 204800',
            'ReloadCache true']
    d = c.start(w, conf)
    cl = [w.client(d)]
    num = 0
    for rd in range(40 if c.thorough() else 12):
        names = ['r%d-%d.back.test' % (rd, i) for i in range(12)]

        def ask(n):
            nonlocal num
            num += 1
            b = ask_no.get(n, 0)
            q = dns.query(num & 0xffff, n, 1)
            cl[0].rx.clear()
            for _ in range(3):
                cl[0].send(q)
                if w.run(lambda: any(m[1][:2] == q[:2] for m in cl[0].rx), 4):
                    break
            l = [m[1] for m in cl[0].rx if m[1][:2] == q[:2]]
            if not l:
                c.live('unanswered', '%s, after the clock was set back' % n)
                return None
            g = dns.parse(l[0])
            c.ev()
            if ask_no.get(n, 0) > b:
                return 'asked'
            now, real = elapsed[0], time.monotonic()
            ok = [s for s in said[n] if s[3] == [x.rdata for x in g.an]]
            if not ok:
                c.bad('not-said', '%s: %r' % (n, g.an))
                return None
            at, r0, ttl, _ = ok[-1]
            age = now - at + real - r0
            for x in g.an:
                if x.ttl > ttl:
                    c.bad('ttl-grew', '%s was said with TTL %d, %.0f s ago; from the cache it has TTL %d, after the clock was set back by %d s' % (n, ttl, age, x.ttl, step))
                    return None
            # (what is left over from before is swept about once a minute)
            if age > ttl + 130 and kind == 'restart':
                c.bad('outlived', '%s was said with TTL %d, %.0f s ago, and still comes from the cache, after the clock was set back by %d s' % (n, ttl, age, step))
                return None
            return 'cached'
        step = 0
        for n in names:
            if ask(n) is None:
                return
        if rng.random() < 0.5:
            x = rng.choice([2, 30, 200])
            d.advance(x)
            elapsed[0] += x
        step = rng.choice([3, 40, 299, 1000, 86400, 10 * 365 * 86400])
        if kind == 'restart':
            w.run(None, 0.02)
            d.kill()
            d.advance(-step)
            d.start()
            d.ready()
            cl[0].close()
            cl[0] = w.client(d)
        else:
            d.advance(-step)
        rng.shuffle(names)
        for j, n in enumerate(names):
            how = ask(n)
            if how is None:
                return
            c.seen('setback', kind, step, how, 0)
            c.count('after_setback_' + how)
        if kind == 'restart':
            for _ in range(rng.choice([0, 3, 8])):
                x = rng.choice([20, 61, 400])
                d.advance(x)
                elapsed[0] += x
                w.run(None, 0.03)
                n = rng.choice(names)
                how = ask(n)
                if how is None:
                    return
                c.seen('setback', kind, step, how, 1)
    c.alive_check(d, 'the clock was set back')


def seq(c, kind, rnd):
    """One query at a time, time moved in between: hits, misses and ages are exactly known."""
    w, rng = c.world(), c.rng
    gen = {}
    asked = []
    ttls = {}
    F = Facts()
    sets = {}
    said_sets = {}

    def handle(srv, q, proto, reply):
        try:
            labels, n, t, k, e = wl.qinfo(q)
        except Exception:
            c.bad('bad-query', q.hex())
            return
        if n.endswith('ready.probe'):
            reply(wl.std_answer(q))
            return
        asked.append((labels, t))
        g = gen[(labels, t)] = gen.get((labels, t), 0) + 1
        key = (labels, t, g)
        ttl = rng.choice([5, 20, 60, 61, 300, 3600, 86400, 2000000])
        if kind == 'zero' and rng.random() < 0.5:
            ttl = 0
        owner = dns.ptr(12)
        an, au, ad, tc = [], [], [], False
        own_labels = labels
        if kind == 'chain' and t != 5 and rng.random() < 0.7:
            for j in range(rng.randrange(1, 5)):
                tgt = ('c%d-%d' % (g, j),) + tuple(x.decode('latin-1') for x in labels[-2 if rng.random() < 0.5 else -4:])
                tgt = [x.encode('latin-1') for x in tgt]
                tt = ttl if rng.random() < 0.5 else rng.choice([20, 60, 300])
                an.append(dns.rr(owner, 5, tt, dns.enc_name(tgt)))
                owner = dns.enc_name(tgt)
        cnt = rng.choice([1, 1, 2, 3, 8]) if t != 5 else 1
        if kind == 'truncated':
            cnt = rng.choice([1, 2, 8, 40, 80])
        if kind == 'large' and t != 5:
            cnt = rng.choice([1, 8, 12, 15, 20, 40, 60, 90])
        for j in range(cnt):
            if kind == 'big' and t == 16:
                nn = rng.choice([1, 30, 100, 200, 255])
                strs = b''.join(bytes([nn]) + wl.h(key, j, z, n=1) * nn for z in range(rng.randrange(1, 6)))
                rd = strs
            elif kind == 'big' and t == 65:
                rd = struct.pack('!H', 1) + b'\0' + struct.pack('!HH', 5, rng.choice([10, 100, 300, 470, 600])) 
                rd += wl.h(key, j, n=1) * struct.unpack('!H', rd[-2:])[0]
            elif t in (2, 12, 5, 15) and rng.random() < 0.5 and len(dns.name_str(labels)) < 240:
                # compressed target
                rd = (struct.pack('!H', j) if t == 15 else b'') + dns.enc_name('g%dx%d' % (g, j))[:-1] + dns.ptr(12)
            elif kind in ('names', 'case') and t in (2, 12, 5, 15):
                lab = rng.choice([b'my.dotted', b'sp ace', b'\xe4\xff', b'UPPER', b'back\\slash'])
                rd = (struct.pack('!H', j) if t == 15 else b'') + dns.enc_name([lab, b'g%dx%d' % (g, j), b'test'])
            else:
                rd = wl.rdata_for('.'.join(x.decode('latin-1') for x in labels), t, (g, j))
            an.append(dns.rr(owner, t, ttl, rd))
        if kind == 'sections':
            for j in range(rng.randrange(3)):
                ns = [b'ns%d' % j] + list(labels[-2:])
                au.append(dns.rr(dns.enc_name(labels[-2:]), 2, rng.choice([30, 300]), dns.enc_name(ns)))
                ad.append(dns.rr(dns.enc_name(ns), 1, rng.choice([30, 300]), wl.rdata_for(str(ns), 1, g)))
        while sum(map(len, an)) > (2700 if kind in ('large', 'truncated') else 1100 if dns.parse(q).opt else 440) and len(an) > 1:
            an.pop(rng.randrange(len(an)) if kind != 'chain' else -1)
        if kind == 'truncated' and len(an) > 1 and rng.random() < 0.6:
            an = an[:rng.choice([1, 1, len(an) - 1])]
            tc = True
        if dns.parse(q).opt:
            ad.append(dns.opt(1232))
        m = dns.response(q, an, au, ad, tc=tc)
        F.say(m)
        said_sets.setdefault((labels, t), []).append(set((x.name, x.type, x.value) for x in dns.parse(m).an))
        sets[(labels, t)] = (F.d.vtime(), [(x.name, x.type, x.value, x.ttl) for x in dns.parse(m).an], tc, m)
        reply(m)
    u = w.upstream('u', handle)
    d = c.start(w, conf_for(c, kind, u))
    F.d = d
    cl = [w.client(d), w.client(d)]
    names = ['w%d.c.test' % i for i in range(4)]
    nm = [tuple(x.encode() for x in n.split('.')) for n in names]
    if kind == 'names':
        nm = [(b'a', b'b', b'test'), (b'a.b', b'test'), (b'a', b'b.test'), (b'a.b.test',), (b'sp ace', b'test'),
              (b'x 1 1', b'test'), (b'x',), (b'x 1 1',), (b'test',), (b'\xff\xfe', b'test'), (b'a\\.b', b'test'),
              (), (b'l' * 63, b'm' * 63, b'n' * 63, b'o' * 59), (b'l' * 63, b'm' * 63, b'n' * 63, b'o' * 60)]
    if kind == 'chain':
        nm[2:] = [(b'w2', b'l' * 50, b'm' * 33, b'n' * 40), (b'w3' + b'k' * 60, b'l' * 50, b'm' * 63, b'n' * 50)]
    if kind == 'case':
        nm = [(b'Www', b'Test'), (b'www', b'test'), (b'WWW', b'TEST'), (b'wWw', b'tEST')]
    if kind == 'large':
        nm = [(b'l' * x, b'm' * y, b'n' * 63, b'o' * 40) for x, y in ((1, 1), (40, 3), (63, 30), (63, 63))]
    if kind == 'control':
        nm += [(b'off', b'test'), (b'hosted', b'test')]
    types = list(CACHED) + list(OTHER)
    if kind == 'chain':
        types = [1, 28, 5, 65]
    if kind == 'big':
        types = [16, 65, 1]
    if kind in ('names', 'case'):
        types = [1, 12, 15, 16, 2]
    if kind == 'large':
        types = [1, 28, 15, 2, 12, 16]
    if kind == 'truncated':
        types = [1, 16, 28]
    total = 1500 if c.thorough() else 420
    hits = misses = 0
    for i in range(total):
        labels, t = rng.choice(nm), rng.choice(types)
        if kind not in ('chain', 'names', 'case'):
            # an alias decides about all types of its name
            if t == 5:
                labels = (b'alias',) + labels
        n = dns.name_str(labels)
        if rng.random() < 0.35:
            pend = sets.get((labels, t))
            r = rng.random()
            if pend and r < 0.6:
                # land near the expiry of what is cached
                ttl = min(x[3] for x in pend[1])
                age = d.vtime() - pend[0]
                step = ttl - age + rng.choice([-4, -3, 2, 3])
                if 0 < step < 3000000:
                    d.advance(step)
            elif r < 0.9:
                d.advance(rng.choice([1, 3, 10, 30, 61, 200]))
        q = dns.query(i & 0xffff, list(labels), t, edns=rng.choice([None, 1232]))
        x = rng.choice(cl)
        before = sets.get((labels, t))
        if kind == 'chain' and before:
            # aliases of one owner to several names may be alive at once: then nothing is demanded
            age = d.vtime() - before[0]
            facts = [(f[0], f[2]) for f, st in F.f.items() if f[1] == 5 and any(v > before[0] - ttl - 3 for v, ttl in st)]
            own = set(y[0] for y in before[1] if y[1] == 5)
            once = all(sum(v > before[0] - ttl - 3 for v, ttl in F.f[y[:3]]) == 1 for y in before[1])      # else the older statement may still count
            whole = before[1] and once and all(age < y[3] - 3 for y in before[1]) and sum(o in own for o, _ in facts) == len(own) and \
                not any(o == before[1][-1][0] for o, _ in facts) and before[1][0][0] == n and before[1][-1][1] == t
        else:
            whole = False
        na = len(asked)
        nr = len(x.rx)
        x.send(q)
        w.run(lambda: len(x.rx) > nr, 6)
        c.ev()
        if len(x.rx) == nr:
            c.live('unanswered', 'no answer to %s type %d' % (n, t))
            return
        now = d.vtime()
        m = x.rx[-1][1]
        try:
            r = dns.parse(m)
        except dns.Bad as e:
            c.bad('malformed', '%s type %d answered with %s: %s' % (n, t, m.hex(), e))
            return
        if r.id != (i & 0xffff) or [(a[3], a[1]) for a in r.questions] != [(labels, t)] or not r.qr or \
                (r.flags >> 11) & 15:
            c.bad('wrong-header', 'asked id %d %r type %d, got %s' % (i, labels, t, m.hex()))
            return
        if n in ('off.test', 'hosted.test') and t in (1, 28):
            # never from the cache: rules first
            vals = [a.value for a in r.an]
            if n == 'off.test' and vals or n == 'hosted.test' and t == 1 and vals != ['9.9.9.9'] or len(asked) != na:
                c.bad('rule-bypassed', '%s type %d answered %r' % (n, t, vals))
                return
            continue
        if n == 'off.test':
            continue
        was_asked = len(asked) > na
        if len(asked) > na + 1:
            c.bad('asked-twice', '%s type %d was asked %d times' % (n, t, len(asked) - na))
        if was_asked:
            misses += 1
            if asked[-1] != (labels, t):
                c.bad('wrong-upstream-question', 'client asked %r type %d, server was asked %r' % (labels, t, asked[-1]))
            if m != bytes(q[:2]) + sets[(labels, t)][3][2:] and \
                    [(a.name, a.type, a.value, a.ttl) for a in r.an] != sets[(labels, t)][1]:
                c.bad('reply-altered', '%s type %d: server said %s, client got %s' % (n, t, sets[(labels, t)][3].hex(), m.hex()))
                return
        else:
            hits += 1
            if t in OTHER:
                c.bad('uncacheable-from-cache', '%s type %d was answered without asking: %s' % (n, t, m.hex()))
                return
            if r.tc:
                c.bad('cached-truncated', '%s type %d: %s' % (n, t, m.hex()))
            if not r.flags & 0x80 or r.rcode or len(r.opt) > 1 or bool(r.opt) != bool(dns.parse(q).opt):
                c.bad('bad-cached-header', '%s type %d: flags %04x opt %d: %s' % (n, t, r.flags, len(r.opt), m.hex()))
            if kind in ('case', 'names'):
                # the exact wire name matters: only what was said about these very labels (in any case)
                low = tuple(a.lower() for a in labels)
                said = [v for (l, ty), v in sets.items() if tuple(a.lower() for a in l) == low and ty == t]
                ok = [sorted(y[:3] for y in s[1]) for s in said]
                got = sorted((a.name, a.type, a.value) for a in r.an)
                whole = sorted(sum(ok, []))
                wire = m
                if not said or not all(g in whole for g in got):
                    c.bad('other-name', 'question %r type %d was answered from the cache with %r; servers said %r about this name' % (
                        labels, t, got, ok))
                    return
                for a in r.an:
                    for s in said:
                        pass
                # rdata names must keep their labels
                gotw = wire_values(m)
                saidw = set()
                for s in said:
                    saidw |= set(wire_values(s[3]))
                if not set(gotw) <= saidw:
                    c.bad('rdata-labels', 'question %r type %d: cached answer %s has other label boundaries than said' % (
                        labels, t, m.hex()))
                    return
            hops = judge(c, F, n, t, r, now, ignore=(kind == 'ignore'))
            if c.violations:
                return
            c.seen(kind, t, 'hit', hops, len(r.an))
            s = sets.get((labels, t))
            if kind == 'large':
                # sets too big to be generated are asked again while valid, so several may be valid: each whole
                got = set((a.name, a.type, a.value) for a in r.an)
                whole = set().union(*[x for x in said_sets[(labels, t)] if x <= got])
                if got != whole:
                    c.bad('partial-set', '%s type %d: the cache answers %d records, %d of them not with the rest of their set' % (
                        n, t, len(got), len(got - whole)))
                    return
            if s and kind in ('seq', 'seq2', 'file', 'big', 'truncated', 'zero'):
                # one owner, one set at a time: the whole set or nothing
                want = sorted(set(y[:3] for y in s[1]))
                got = sorted((a.name, a.type, a.value) for a in r.an)
                if got != want or s[2]:
                    c.bad('partial-set', '%s type %d: the server said %d records%s, the cache answers %d: %r' % (
                        n, t, len(want), ' (truncated)' if s[2] else '', len(got), got))
                    return
        # hit or miss as the statements demand
        if whole and was_asked:
            c.bad('cache-missed', '%s type %d asked again %.1f s after a reply whose records are all still valid: %r' % (n, t, now - before[0], before[1]))
            return
        c.count('valid_chains_found', int(bool(whole)))
        if kind in ('seq', 'seq2', 'file', 'ignore') and t in CACHED:
            st = gen.get((labels, t, 'last'))
            if st is not None:
                age = now - st[0]
                if kind == 'ignore':
                    if was_asked:
                        c.bad('cache-missed', '%s type %d was asked again although TTLs are ignored' % (n, t))
                        return
                elif age > st[1] + 2 and not was_asked:
                    c.bad('expired-served', '%s type %d served at age %.1f of TTL %d' % (n, t, age, st[1]))
                    return
                elif age < st[1] - 2 and was_asked:
                    c.bad('cache-missed', '%s type %d asked again at age %.1f of TTL %d' % (n, t, age, st[1]))
                    return
                c.seen(kind, t, was_asked, age > st[1])
            if was_asked:
                s = sets[(labels, t)]
                gen[(labels, t, 'last')] = (s[0], s[1][0][3])
        if i < 3:
            c.sample({'name': n, 'type': t, 'asked': was_asked, 'answer': [repr(a) for a in r.an[:3]]})
    c.count('hits', hits)
    c.count('misses', misses)
    if hits < total // 20 and kind not in ('zero', 'names', 'case', 'truncated', 'big', 'large', 'chain', 'sections', 'control'):
        c.bad('no-caching', 'only %d of %d queries were answered from the cache' % (hits, total))
    c.alive_check(d, 'the cache workload')


def wire_values(m):
    """(type, rdata labels) of answer records holding names, exact label boundaries."""
    out = []
    p = dns.skip_name(m, 12) + 4
    for _ in range(struct.unpack('!H', m[6:8])[0]):
        p = dns.skip_name(m, p)
        t, k, ttl, dl = struct.unpack('!HHIH', m[p:p + 10])
        p += 10
        if t in (2, 5, 12):
            out.append((t, tuple(x.lower() for x in dns.read_name(m, p)[0])))
        elif t == 15:
            out.append((t, m[p:p + 2], tuple(x.lower() for x in dns.read_name(m, p + 2)[0])))
        p += dl
    return out


def many(c, kind, rnd):
    """Many clients at once, entries coming and going, sweeps, a full cache: every answer stays right."""
    w, rng = c.world(), c.rng
    F = Facts()
    nasked = [0]
    hot = 12 if kind not in ('churn', 'churnfile', 'full') else 2500 if kind != 'full' else 600

    def content(n, t, salt=0):
        z = wl.h('set', n, t, n=3)
        cnt = 1 + (z[0] % 5 if t != 5 else 0)
        ttl = [25, 60, 90, 300, 5][z[1] % 5]
        out = []
        for j in range(cnt):
            if t == 16:
                ln = (z[2] * 7 + j * 31) % 250
                rd = bytes([ln]) + (wl.h(n, t, j) * 16)[:ln]
            else:
                rd = wl.rdata_for(n, t, (salt, j))
            out.append(rd)
        return ttl, out

    def mk(salt):
        def handle(srv, q, proto, reply):
            try:
                labels, n, t, k, e = wl.qinfo(q)
            except Exception:
                c.bad('bad-query', q.hex())
                return
            if n.endswith('ready.probe'):
                reply(wl.std_answer(q))
                return
            nasked[0] += 1
            ttl, rds = content(n, t, salt)
            m = dns.response(q, [dns.rr(dns.ptr(12), t, ttl, rd) for rd in rds], [], [dns.opt(1232)] if dns.parse(q).opt else [])
            F.say(m)
            reply(m, delay=rng.choice([0, 0, 0.002, 0.01]))
        return handle
    u = w.upstream('u', mk(0), tcp=True)
    u2 = w.upstream('u2', mk(1)) if kind == 'parallel' else None
    d = c.start(w, conf_for(c, kind, u, u2))
    F.d = d
    if kind == 'noise':
        d.noise(1500)
    cls = [w.client(d) for _ in range(5)] + [w.tclient(d) for _ in range(2)]
    pend = {}
    st = {'ok': 0}
    # facts may be older than the advance that happened while a reply was on its way
    adv = [(-1e9, 0)]

    def on(cl, m):
        e = pend.pop((cl, m[:2]), None)
        if e is None:
            c.bad('extra-reply', m.hex())
            return
        n, t = e
        try:
            r = dns.parse(m)
        except dns.Bad as x:
            c.bad('malformed', '%s: %s' % (x, m.hex()))
            return
        if [(a[0], a[1]) for a in r.questions] != [(n, t)] or not r.qr:
            c.bad('wrong-question', 'asked %s type %d got %s' % (n, t, m.hex()))
            return
        if r.rcode or not r.an:
            c.bad('no-answer', 'asked %s type %d got rcode %d, %d records' % (n, t, r.rcode, len(r.an)))
            return
        judge(c, F, n, t, r, d.vtime(), anyttl=(kind == 'parallel'))
        got = sorted((a.type, a.value) for a in r.an)
        wants = []
        for s in ((0,) if kind != 'parallel' else (0, 1)):
            ttl, rds = content(n, t, s)
            wants.append(set((t, dns._value(rd, 0, len(rd), t)) for rd in rds))
        if not any(set(got) == x for x in wants) and not (kind == 'parallel' and set(got) == wants[0] | wants[1]) and \
                kind != 'parallel' and not full[0]:
            c.bad('partial-set', '%s type %d: servers say %r, answered %r' % (n, t, wants, got))
        c.seen(kind, t, len(got), cl.__class__.__name__)
        st['ok'] += 1
    full = [False]
    for x in cls:
        x.cb = on
    total = 12000 if c.thorough() else 2600
    qid = 0
    for i in range(total):
        if i % (130 if kind != 'full' else 900) == 129:
            w.run(lambda: not pend, 6)
            w.run(None, 0.05)
            step = rng.choice([3, 20, 61, 61, 120, 400]) if kind != 'full' else 700
            # the sweep runs every 59 s; the workload goes on while it does
            d.advance(step)
        while True:
            qid = (qid + 1) & 0xffff
            x = rng.choice(cls) if rng.random() < 0.95 else cls[-1]
            if (x, struct.pack('!H', qid)) not in pend:
                break
        t = rng.choice([1, 28, 16, 15, 12, 5, 65, 2])
        n = '%s%d.lllll.test' % ('alias' if t == 5 else 'm', rng.randrange(hot))
        if hot > 100:
            n = 'm%d.%s.test' % (rng.randrange(hot), 'abc')
            if rng.random() < 0.3:
                n = 'big%d.%s.test' % (rng.randrange(hot), 'l' * rng.randrange(1, 60))
        q = dns.query(qid, n, t, edns=rng.choice([None, 1232]))
        pend[(x, q[:2])] = (n, t)
        c.ev()
        x.send(q)
        if len(pend) > 12:
            w.run(lambda: len(pend) < 6, 6)
        if c.violations:
            return
    w.run(lambda: not pend, 8)
    c.count('answers', st['ok'])
    c.count('asked', nasked[0])
    c.count('full_warnings', d.stdout().count('No available cache'))
    if pend:
        c.live('unanswered', '%d queries unanswered, e.g. %r' % (len(pend), next(iter(pend.values()))))
        return
    if kind in ('many', 'noise') and nasked[0] > total * 0.9:
        c.bad('no-caching', '%d of %d queries went to the server' % (nasked[0], total))
    c.alive_check(d, 'the cache workload')
