"""P19: statistics and log account for every query exactly once."""
import os, re, struct, time
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one query (answered from hosts, cache, UDP, TCP, refused or lost) or one discarded reply; after each burst the '
        'statistics report and all log files are read and compared with the ledger of what the clients and servers saw, per name and '
        'kind. Non-trivial: distinct by (kind of answer, client transport, kind of name, times asked, phase of the log or report).')
ASSUMPTIONS = ['queries in flight within 0.15 s of the writing of a report may be missing in the counts (documented in the code)',
               'a query whose name hosts redirects counts for every name on the way; one whose target stays unanswered is not judged', 'a discarded reply counts once per reply']

KINDS = ('RaF', 'Hosts', 'Cache', 'UDP', 'TCP', 'BlockedMsg')
LETTER = {'RaF': 'R', 'Hosts': 'H', 'Cache': 'C', 'UDP': 'U', 'TCP': 'T', 'BlockedMsg': 'B'}
PRE = '<html>head %s\n%%d 100%%\n'
POST = '\n</html> tail\n'


def scenarios(tier, seed):
    k = 5 if tier == 'thorough' else 1
    out = []
    for i in range(k):
        for kind in ('stat', 'log', 'both', 'names', 'lost', 'rotate', 'parallel', 'cache'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


def js(s):
    """Value of a JavaScript string literal's inside."""
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == 'x':
                out.append(chr(int(s[i + 2:i + 4], 16)))
                i += 4
            elif s[i + 1] == 'u':
                out.append(chr(int(s[i + 2:i + 6], 16)))
                i += 6
            else:
                out.append({'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'f': '\f', 'v': '\v'}.get(s[i + 1], s[i + 1]))
                i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


LINE = re.compile(r'\{Domain:"((?:[^"\\]|\\.)*)",Total:(-?\d+),RaF:(-?\d+),Hosts:(-?\d+),Cache:(-?\d+),UDP:(-?\d+),TCP:(-?\d+),BlockedMsg:(-?\d+)\},')


def report(text):
    """(per name counts, sums) or raises ValueError."""
    if not text.startswith(PRE) or not text.endswith(POST):
        raise ValueError('the template is not around the statistics: %r ... %r' % (text[:60], text[-200:]))
    body = text[len(PRE):-len(POST)]
    m = re.match(r'<script type="text/javascript">\s*var StartUpTime = (\d+);\s*var LastStatistic = (\d+);\s*var InfoArray = \[', body)
    if not m:
        raise ValueError('beginning: %r' % body[:160])
    p, lines = m.end(), {}
    while True:
        x = LINE.match(body, p)
        if not x:
            break
        n = js(x.group(1))
        if n in lines:
            raise ValueError('%r is listed twice' % n)
        if any(ord(z) < 32 for z in x.group(1)) or '</' in x.group(1):
            raise ValueError('the name %r ends the script or the string' % x.group(1))
        lines[n] = [int(v) for v in x.groups()[1:]]
        p = x.end()
    m = re.fullmatch(r'\];var Sum = \{ Total\s*:\s*(-?\d+),RaF\s*:\s*(-?\d+),Hosts\s*:\s*(-?\d+),Cache\s*:\s*(-?\d+),UDP\s*:\s*(-?\d+),TCP\s*:\s*(-?\d+),'
                     r'BlockedMsg\s*:\s*(-?\d+)\};</script>', body[p:])
    if not m:
        raise ValueError('after %d names: %r' % (len(lines), body[p:p + 300]))
    return lines, [int(v) for v in m.groups()]


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    block = {}

    def handle(srv, q, proto, reply):
        try:
            labels, n, t, k, e = wl.qinfo(q)
        except Exception:
            return
        if n.endswith('.lost.test'):
            return
        for _ in range(block.get(n, 0)):
            reply(dns.response(q, [dns.rr(dns.ptr(12), 1, 60, bytes([6, 6, 6, 6]))]))
        if n.endswith('.neg.test'):
            return
        reply(wl.std_answer(q), delay=rng.choice([0, 0, 0.01]))
        if kind == 'parallel' and rng.random() < 0.3:
            reply(wl.std_answer(q), delay=0.02)

    ups = [w.upstream('u%d' % i, handle, tcp=True) for i in range(4)]
    log = kind != 'stat' or rng.random() < 0.5
    stat = kind not in ('log', 'rotate') or rng.random() < 0.5
    thr = {'rotate': rng.choice([400, 1500])}.get(kind, rng.choice([3000, 20000, 1000000]))
    u2 = '%s,%s' % (ups[0].addr, ups[1].addr) if kind == 'parallel' else ups[0].addr
    t2 = '%s,%s' % (ups[2].addr, ups[3].addr) if kind == 'parallel' else ups[2].addr
    onoff = 'on' if kind == 'parallel' else 'off'
    conf = ['UDPGroup %s * %s' % (u2, onoff), 'TCPGroup %s *.tcp.test %s no' % (t2, onoff), 'EnableUDPtoTCP true', 'EnableTCPtoUDP true',
            'UseCache %s' % str(kind in ('cache', 'both')).lower(), 'MemoryCache true', 'OverrideTTL -1', 'CacheControl *.nc.test nocache',
            'DisabledDomain dis.test', 'DisabledType 99', 'AppendHosts 10.0.0.1 *.host.test', 'AppendHosts 10.0.0.2 four.test',
            'AppendHosts at.udp.test *.al.test', 'AppendHosts mid.al.test *.ch.test', 'AppendHosts 10.0.0.3 at.host.test', 'AppendHosts at.host.test *.ah.test',
            'BlockIpv6WhenIpv4Exists true', 'BlockIP 6.6.6.6', 'BlockNegativeResponse true']
    conf += ['LogOn %s' % str(log).lower(), 'LogFileFolder {DIR}/logs', 'LogFileThresholdLength %d' % thr]
    every = 3 if kind == 'lost' else rng.choice([1, 1, 2])     # (queries are given up every 10 s)
    calm = rng.random() < 0.75       # asks nothing while a report is being written
    if stat:
        conf += ['DomainStatistic true', 'DomainStatisticTempletFile {DIR}/tpl', 'StatisticInsertionPosition <!-- INSERT HERE -->',
                 'StatisticUpdateInterval %d' % every]
    keep = os.path.join(w.tmp, 'd')
    os.makedirs(os.path.join(keep, 'logs'))
    pre = ''
    if log and rng.random() < 0.5:
        pre = 'an older line\n' * rng.choice([1, 40, thr // 14, thr // 14]) if thr < 50000 else 'an older line\n'
        with open(os.path.join(keep, 'logs', 'dnsforwarder.log'), 'w') as f:
            f.write(pre)
    taken = {}
    if log and rng.random() < (0.7 if kind == 'rotate' else 0.3):
        for i in (1, 3):
            taken['dnsforwarder.log.%d' % i] = 'taken %d\n' % i
    for f, t in taken.items():
        with open(os.path.join(keep, 'logs', f), 'w') as fh:
            fh.write(t)
    d = c.start(w, conf, files={'tpl': PRE + '<!-- INSERT HERE -->' + POST}, keep=keep)
    rep = os.path.join(d.dir, 'home', '.dnsforwarder', 'statistic.html')
    cls = [w.client(d), w.client(d), w.tclient(d)]
    want, vague, asked = {}, set(), {}
    state = {'m': 0, 'id': rng.randrange(60000), 'writes': 0}
    open_q = {}     # name -> time sent, for what is in flight
    recent = []
    gave_up = {}    # lost name -> when the last giving up was logged

    def watch():
        try:
            m = os.stat(rep).st_mtime_ns
        except OSError:
            m = 0
        if m != state['m']:
            state['m'] = m
            state['writes'] += 1
            now = w.loop.now()
            wrote = now - max(0, time.time() - m / 1e9)     # may be noticed late
            vague.update(n for n, t0, t1 in recent if t1 is None or t1[0] is None or t1[0] > wrote - 0.15)
            vague.update(open_q)
            vague.update(x for x, t in gave_up.items() if t > wrote - 0.3)
            state['last'] = now
        w.loop.after(0.01, watch)
    if stat:
        watch()
        if rng.random() < 0.7:
            w.run(lambda: state['writes'] > 1, 5)

    def name(what):
        i = rng.randrange(12 if kind != 'names' else 40)
        if kind == 'names' and what in ('UDP', 'TCP', 'RaF', 'Hosts') and rng.random() < 0.7:
            odd = rng.choice(['*', '?', 'a*', '[ab]', 'x?y', '%s%n', '"q"', "it's", 'back\\slash', '</script>', '<b>', 'a b', '\xe4\xf6', '[a-', '\x07', '{}', '%d%d%d',
                              '"},{', '_srv', '*' * 30, '\x7f'])
            base = odd + str(i % 3)
        elif kind == 'names' and rng.random() < 0.3:
            base = '.'.join('l' * rng.choice([20, 63]) for _ in range(rng.choice([1, 2, 3]))) + str(i)
            base = '.'.join(x[:63] for x in base.split('.'))
        else:
            base = 'n%d' % i
        s = {'UDP': '.udp.test', 'TCP': '.tcp.test', 'Hosts': '.host.test', 'RaF': '.dis.test', 'lost': '.lost.test', 'Block': '.blk.test',
             'Neg': '.neg.test', 'four': '', 'type': '.typ.test', 'Alias': '.al.test', 'Chain': '.ch.test', 'AliasHost': '.ah.test'}[what]
        return base + s if what != 'four' else 'four.test'

    def bump(n, k, x=1):
        want.setdefault(n, dict.fromkeys(KINDS, 0))[k] += x

    def ask(what, cl=None):
        cl = cl or rng.choice(cls)
        if stat and calm and state['writes'] > 1:
            w.run(lambda: 0.16 < w.loop.now() - state['last'] < every - 0.16 or w.loop.now() - state['last'] > every + 1, 2)
        n, t = name(what), 1
        if what in ('UDP', 'TCP') and rng.random() < 0.3:
            t = rng.choice([28, 16, 15])
        if what == 'four':
            t = 28
        if what == 'type':
            t = 99
        if what == 'Block':
            block[n] = rng.choice([1, 1, 3]) if cl is not cls[2] and kind != 'parallel' else 0
        state['id'] = (state['id'] + 1) & 0xffff
        caps = rng.choice([0, 0.3])     # the cache takes names of different case for different ones
        wire = ''.join(ch.upper() if rng.random() < caps and ch < '\x7f' else ch for ch in n)
        q = struct.pack('!6H', state['id'], 0x100, 1, 0, 0, 0) + b''.join(
            bytes([len(l)]) + l.encode('latin-1') for l in wire.split('.')) + b'\0' + struct.pack('!HH', t, 1)
        end = [None]
        # what an alias leads to counts as well
        via = {'Alias': ['at.udp.test'], 'Chain': ['mid.al.test', 'at.udp.test'], 'AliasHost': ['at.host.test']}.get(what, [])
        for x in ([n] if what != 'lost' else []) + via:
            open_q[x] = 1
            recent.append((x, w.loop.now(), end))
            if stat and w.loop.now() - state.get('last', -9) < 0.15:
                vague.add(x)
        del recent[:-400]
        base_up = sum(len(u.log) for u in ups)
        nr = len(cl.rx)
        cl.send(q)
        c.ev()
        if what == 'lost':
            lost.append((n, t))
            bump(n, 'RaF')
            c.seen(kind, 'lost')
            return True
        w.run(lambda: len(cl.rx) > nr, 6)
        for x in [n] + via:
            open_q.pop(x, None)
        end[0] = w.loop.now()
        if len(cl.rx) == nr:
            c.live('unanswered', 'no answer for %r' % n)
            return False
        if cl.rx[-1][1][:2] != q[:2]:
            c.bad('answer', 'a reply to another query')
            return False
        went = sum(len(u.log) for u in ups) > base_up
        key = (n, t)
        if what in ('UDP', 'TCP', 'Block'):
            if went:
                by = 'TCP' if what == 'TCP' else 'UDP'
                tcp = any(x[1] == 'tcp' for u in ups for x in u.log[-3:] if wl.qinfo(x[2])[1] == n)
                by = 'TCP' if tcp else 'UDP'
                bump(n, by)
                if what == 'Block':
                    bump(n, 'BlockedMsg', block[n])
            else:
                by = 'Cache'
                bump(n, 'Cache')
        elif via:
            by = 'Hosts'
            for x in [n] + via[:-1]:
                bump(x, 'Hosts')
            bump(via[-1], 'Hosts' if what == 'AliasHost' else 'UDP' if went else 'Cache')
        else:
            by = 'Hosts' if what == 'Hosts' else 'RaF'
            bump(n, by)
        asked[n] = asked.get(n, 0) + 1
        c.count('answered_' + by)
        c.seen(kind, by, cl.__class__.__name__, what, min(asked[n], 3), t, n.isalnum() or n.replace('.', '').isalnum())
        return True

    lost = []
    pool = ['UDP'] * 4 + ['TCP'] * 2 + ['Hosts', 'RaF', 'four', 'type', 'Block', 'Alias', 'Chain', 'AliasHost']
    n = {'lost': 60, 'stat': 700, 'parallel': 250, 'names': 400}.get(kind, 300) * (3 if c.thorough() else 1)
    bursts = 1 if kind == 'lost' and not c.thorough() else 3
    for burst in range(bursts):
        for i in range(n // bursts):
            if kind == 'lost' and rng.random() < 0.35 and cls[0] and len(lost) < 25:
                ok = ask('lost', cls[0])
            else:
                ok = ask(rng.choice(pool))
            if not ok or c.violations:
                return
        if lost:
            # given up after 2 s, when the group looks next
            w.run(None, 2.5)
            until = w.loop.now() + 16
            seen, t1 = {}, 0
            while w.loop.now() < until and sum(seen.values()) < len(lost):
                if w.loop.now() > t1:
                    ask('UDP', cls[1])
                    t1 = w.loop.now() + 0.5
                w.run(None, 0.02)
                text = ''.join(logs(d)[0].values())
                for x in set(n for n, _ in lost):
                    k = text.count('[%s] Timed out' % x)
                    if k > seen.get(x, 0):
                        seen[x] = k
                        gave_up[x] = w.loop.now()
                        if gave_up[x] < state.get('last', -9) + 0.3:
                            vague.add(x)
        if stat:
            k = state['writes']
            w.run(lambda: state['writes'] >= k + 2, 8)
            w.run(None, 0.3)
            if state['writes'] < k + 2:
                c.live('no-report', 'the statistics were written %d times within 8 s' % (state['writes'] - k))
                return
            with open(rep, 'rb') as f:
                text = f.read().decode('latin-1')
            try:
                lines, total = report(text)
            except ValueError as e:
                c.bad('report', str(e))
                return
            c.count('reports_read')
            c.seen(kind, 'report', burst, min(len(lines) // 20, 5))
            if [sum(v[i] for v in lines.values()) for i in range(7)] != total:
                c.bad('sum', 'the sums %r are not those of the lines' % total)
                return
            for x, v in lines.items():
                if v[0] != sum(v[1:6]):
                    c.bad('total', '%r: total %d, parts %r' % (x, v[0], v[1:]))
                    return
                if x not in want and not x.endswith('ready.probe'):
                    c.bad('unknown-name', '%r was counted, but never asked' % x)
                    return
            for x, v in want.items():
                got = dict(zip(KINDS, lines.get(x, [0] * 7)[1:]))
                for k in KINDS:
                    lo = v[k]
                    if x in vague:
                        if got[k] > v[k]:
                            c.bad('count', '%r: %s is %d, but only %d happened' % (x, k, got[k], v[k]))
                            return
                    elif got[k] != v[k]:
                        c.bad('count', '%r: %s is %d, but %d happened (report %r)' % (x, k, got[k], v[k], lines.get(x)))
                        return
                c.count('names_compared' if x not in vague else 'names_bounded')
        if log:
            w.run(None, 0.2)
            all_, sizes = logs(d, taken)
            for f, t in taken.items():
                if all_.pop(f, None) != t:
                    c.bad('log-taken', 'the file %s that was there has been overwritten' % f)
                    return
            if pre and not any(t.startswith(pre) for t in all_.values()):
                c.bad('log-lost', 'what the log held before the start is gone')
                return
            for f, z in sizes.items():
                # one entry goes over
                if z > max(thr, len(pre)) + 1900:
                    c.bad('log-size', '%s has %d bytes, the threshold is %d' % (f, z, thr))
                    return
                if z < thr and f not in ('dnsforwarder.log', 'moved'):
                    c.bad('log-size', '%s was ended at %d bytes, the threshold is %d' % (f, z, thr))
                    return
            text = ''.join(all_.values())
            per = {}
            for m in re.finditer(r'(?m)^\S+ \S+ \[([A-Z])\](?:\[[^\]\n]*\]){1,2}\[(.*)\] (: \d+ bytes|Timed out\.|[^\n]*)$', text):
                per.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
            for x, v in want.items():
                if not x.replace('.', '').isalnum():
                    if '[%s]' % x not in text and ord(min(x)) >= 32:
                        c.bad('log-name', '%r is not in the log' % x)
                        return
                    continue
                got = dict.fromkeys(KINDS, 0)
                for l, rest in per.get(x, []):
                    if rest == 'Timed out.':
                        got['RaF'] += 1
                    else:
                        for k in KINDS:
                            if LETTER[k] == l:
                                got[k] += 1
                if got != v:
                    c.bad('log-count', '%r: the log tells %r, but %r happened: %r' % (x, got, v, per.get(x)))
                    return
                c.count('names_compared_in_log')
            c.seen(kind, 'log', burst, min(len(all_), 4), bool(pre))
            c.count('log_files', len(all_))
            if kind == 'rotate' and burst == 1:
                # someone takes the file away
                os.rename(os.path.join(d.dir, 'logs', 'dnsforwarder.log'), os.path.join(d.dir, 'logs', 'moved'))
    c.check_daemons()


def logs(d, taken=()):
    out, sizes = {}, {}
    p = os.path.join(d.dir, 'logs')
    for f in sorted(os.listdir(p)):
        with open(os.path.join(p, f), 'rb') as fh:
            t = fh.read()
        out[f] = t.decode('latin-1')
        if f not in taken:
            sizes[f] = len(t)
    return out, sizes
