"""P11: the configured TTL policy decides how long each record is kept and served."""
import fnmatch
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one fresh name resolved once through an alias chain under generated CacheControl, OverrideTTL and MultipleTTL '
        'rules (every type and every contagiousness), then asked again at a chosen virtual age, together with its targets. '
        'Every record must be served with the TTL the rules give it less its age, be asked again once past it, and never be '
        'kept where the rules say not to. Non-trivial: distinct by (configuration, rule of the question, own rules along the '
        'chain, position of the record, age class).')
ASSUMPTIONS = ['rules of one configuration have no two patterns matching one name', 'ages within 2 s of a TTL are not judged']


def scenarios(tier, seed):
    k = 16 if tier == 'thorough' else 6
    out = []
    for i in range(k):
        for kind in ('suffix', 'pattern', 'upper', 'override', 'override0', 'multiple', 'both', 'none', 'doc'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    rules = []      # (pattern, infection, state, a, b)
    nd = 7
    doms = ['d%d.test' % i for i in range(nd)]
    if kind in ('suffix', 'pattern', 'upper', 'override', 'multiple', 'both'):
        for i in range(nd - 2):
            inf = rng.choice(['', '$', '$$'])
            st = rng.choice(['orig', 'nocache', 'fixed', 'fixed', 'vari', 'vari'])
            a, b = 0, 0
            if st == 'fixed':
                b = rng.choice([0, 10, 50, 700, 5000, 200000])
            elif st == 'vari':
                a, b = rng.choice([0, 1, 2, 5]), rng.choice([0, 1, 100, 4000])
            p = doms[i]
            if kind == 'pattern' and rng.random() < 0.6:
                p = rng.choice(['*.d%d.test', '*d%d.te?t', '?*.d%d.*']) % i
            rules.append((p, inf, st, a, b))
    if kind == 'doc':
        rules = rng.choice([
            [('d0.test', '', 'fixed', 0, 1000), ('d1.test', '', 'fixed', 0, 500)],
            [('d0.test', '$', 'fixed', 0, 1000), ('d1.test', '', 'fixed', 0, 500)],
            [('d0.test', '$$', 'fixed', 0, 1000), ('d1.test', '', 'fixed', 0, 500)]])
    conf = ['LogOn false', 'UseCache true', 'MemoryCache true', 'CacheSize 4194304']
    for p, inf, st, a, b in rules:
        arg = {'orig': '', 'nocache': '', 'fixed': ' %d' % b, 'vari': ' %dx+%d' % (a, b)}[st]
        conf.append('CacheControl %s %s%s%s' % (p.upper() if kind == 'upper' else p, inf, st, arg))
    star = None
    if kind in ('override', 'both'):
        v = rng.choice([30, 600, 100000])
        conf.append('OverrideTTL %d' % v)
        star = ('', 'fixed', 0, v)
    elif kind == 'override0':
        conf.append('OverrideTTL 0')
        star = ('', 'fixed', 0, 0)
    else:
        conf.append('OverrideTTL -1')
    if kind in ('multiple', 'both'):
        v = rng.choice([1, 2, 7])
        conf.append('MultipleTTL %d' % v)
        if star is None and v > 1:
            star = ('', 'vari', v, 0)
    rng.shuffle(conf)

    def rule(n):
        for p, inf, st, a, b in rules:
            if '*' not in p and '?' not in p and (n == p or n.endswith('.' + p)):
                return (inf, st, a, b)
        for p, inf, st, a, b in rules:
            if ('*' in p or '?' in p) and fnmatch.fnmatchcase(n, p):
                return (inf, st, a, b)
        return star

    def effective(q, n, ttl):
        rq, rn = rule(q), rule(n)
        r = rn if rq is None or rq[0] == '$$' else rq if rq[0] == '' else (rn or rq)
        if r is None or r[1] == 'orig':
            return ttl
        if r[1] == 'nocache':
            return 0
        return r[3] if r[1] == 'fixed' else r[2] * ttl + r[3]
    said = {}
    asked = []

    def handle(srv, q, proto, reply):
        try:
            labels, n, t, k, e = wl.qinfo(q)
        except Exception:
            return
        asked.append((n, t))
        if n.endswith('ready.probe') or n not in said:
            reply(wl.std_answer(q, ttl=1))
            return
        an = []
        for (o, ty, ttl, v) in said[n]:
            an.append(dns.rr(dns.ptr(12) if o == n else dns.enc_name(o),
                             ty, ttl, dns.enc_name(v) if ty == 5 else v))
        reply(dns.response(q, an))
    u = w.upstream('u', handle)
    d = c.start(w, ['UDPGroup %s * off' % u.addr] + conf)
    cl = w.client(d)
    qid = [0]

    def ask(n, t=1):
        qid[0] += 1
        nr, na = len(cl.rx), len(asked)
        cl.send(dns.query(qid[0] & 0xffff, n, t))
        w.run(lambda: len(cl.rx) > nr, 6)
        if len(cl.rx) == nr:
            c.live('unanswered', 'no answer to %s' % n)
            return None
        return dns.parse(cl.rx[-1][1]), len(asked) > na
    total = 900 if c.thorough() else 260
    for i in range(total):
        length = rng.choice([0, 0, 1, 2, 3])
        chain = ['q%d-%d.%s' % (i, j, rng.choice(doms)) for j in range(length + 1)]
        if kind == 'doc':
            chain = ['q%d.d0.test' % i, 'r%d.d1.test' % i, 's%d.d2.test' % i]
        recs = []
        for j in range(len(chain) - 1):
            recs.append((chain[j], 5, rng.choice([20, 100, 285, 3585]), chain[j + 1]))
        ttl = rng.choice([20, 100, 285, 3585])
        for j in range(rng.choice([1, 2])):
            recs.append((chain[-1], 1, ttl, wl.rdata_for(chain[-1], 1, j)))
        said[chain[0]] = recs
        x = ask(chain[0])
        if x is None:
            return
        r, fwd = x
        got = sorted((a.name, a.type, a.ttl) for a in r.an)
        if not fwd or got != sorted((o, ty, tl) for o, ty, tl, v in recs):
            c.bad('first-answer', '%s: first answer %r, server said %r' % (chain[0], got, recs))
            return
        t0 = d.vtime()
        eff = {}
        for o, ty, tl, v in recs:
            eff[(o, ty)] = effective(chain[0], o, tl)
        m = min(eff.values())
        d.advance(rng.choice([0, 3, 10, max(0, min(m, 200000) - 5), max(0, min(m, 200000) + 4), rng.choice([1, 50, 150, 2000])]))
        # the chain, or one of its later names
        pos = 0 if rng.random() < 0.7 else rng.randrange(len(chain))
        need = [(o, ty) for o, ty in eff if chain.index(o) >= pos]
        x = ask(chain[pos])
        if x is None:
            return
        r, fwd = x
        age = d.vtime() - t0
        c.ev()
        lo = min(eff[k] for k in need)
        what = '%s (rules %r, star %r) said %r, effective %r, age %.1f' % (chain[pos], rules, star, recs, eff, age)
        cls = 'valid' if age < lo - 2 else 'expired' if age > lo + 2 or lo == 0 else 'edge'
        c.seen(kind, rule(chain[0]), tuple(str(rule(z))[:12] for z in chain), pos, cls)
        c.count(cls)
        if cls == 'expired' and not fwd:
            c.bad('kept-too-long', 'answered from the cache: %s' % what)
            return
        if cls == 'valid':
            if fwd:
                c.bad('not-kept', 'asked again: %s' % what)
                return
            for a in r.an:
                e = eff.get((a.name, a.type))
                if e is None or abs(a.ttl - (e - age)) > 2:
                    c.bad('wrong-ttl', 'record %r served, expected TTL %s: %s' % (a, e and e - age, what))
                    return
        if i < 2:
            c.sample({'question': chain[0], 'records': [x[:3] for x in recs], 'effective': [str(x) for x in eff.items()], 'age': age})
        if i % 60 == 59:
            d.advance(300000)
    c.alive_check(d, 'the TTL workload')
