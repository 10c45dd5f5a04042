"""P16: no data race between the service's threads (ThreadSanitizer over whole-service workloads)."""
import re
import dns, wl, build

LEVEL = 'exploration'
RULE = ('A case is one query answered by the ThreadSanitizer build while every background activity (reloads, cache sweeps, statistics, '
        'log rotation, group replacement, time-outs) runs; any pair of conflicting unsynchronised accesses, lock-order inversion or '
        'misuse of a destroyed lock that was executed is reported. Non-trivial: distinct by (scenario, kind of query, transport, '
        'background activity since the last answer).')
ASSUMPTIONS = ['the happens-before detector sees the races between accesses that were executed and are still in its history',
               'start-up and orderly shutdown are not in scope: the service is watched while it serves']
VARIANTS = ['tsan']
WORKERS = 5


def scenarios(tier, seed):
    k = 6 if tier == 'thorough' else 1
    out = []
    for i in range(k):
        for kind in ('reload', 'cache', 'udp', 'tcp', 'stat', 'goodip', 'dead', 'all', 'allnoise'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


def reports(text):
    """(key, text) of each TSan report."""
    out = []
    for blk in re.split(r'={18,}\n', text):
        m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', blk)
        if not m or 'Location is file descriptor' in blk:
            continue            # a descriptor number used again: what is sent where is P03's
        fr = []
        for part in re.split(r'\n\s*\n', blk):
            fs = re.findall(r'#\d+ (\w+) (\S+?):\d+', part)
            mine = [f for f, p in fs if p.startswith(build.REPO + '/')]
            if mine and re.search(r'(Write|Read|write|read|Mutex|Location|Atomic) ', part) and 'created' not in part.split('\n')[0]:
                fr.append(mine[0])
        key = '%s:%s' % (m.group(1).strip().replace(' ', '-'), '/'.join(sorted(set(fr[:2]))) or '?')
        out.append((key, blk[:3500]))
    return out


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    full = kind.startswith('all')
    on = lambda *k: full or kind in k
    ver = [0]

    def handler(idx):
        def handle(srv, q, proto, reply):
            try:
                labels, n, t, k, e = wl.qinfo(q)
            except Exception:
                return
            if n.startswith('lost') and n[4] != '0':
                return
            ttl = rng.choice([1, 1, 2, 30])
            rd = [wl.rdata_for(n, t, i) for i in range(rng.choice([1, 1, 3]))]
            if t == 1 and rng.random() < 0.2:
                rd[0] = bytes([192, 0, 2, rng.randrange(20)])
            if n.startswith('blk'):
                reply(dns.response(q, [dns.rr(dns.ptr(12), 1, 60, bytes([192, 0, 2, 200]))]))
            reply(dns.response(q, [dns.rr(dns.ptr(12), t, ttl, x) for x in rd]), delay=rng.choice([0, 0, 0, 0.002, 0.03]))
            if proto == 'udp' and rng.random() < 0.05:
                reply(dns.response(q, [dns.rr(dns.ptr(12), t, ttl, rd[0])]))
        return handle
    ups = [w.upstream('u%d' % i, handler(i), tcp=True) for i in range(3)]

    def files():
        v = ver[0]
        return {'hsrc': '\n'.join(['10.0.%d.%d h%d.test' % (v % 200, k, k) for k in range(30)] +
                                  ['*.v%d.test 10.9.9.9' % v, 'c%d.cache.test alias.test' % (v % 7), '@@x.h1.test x']) + '\n',
                'dl': '\n'.join('d%d.test' % k for k in range(v % 3, 30, 2)) + '\n*.dis%d.test\n' % v,
                'sub': '\n'.join('192.0.2.%d 198.51.100.%d' % (k, (v + k) % 250) for k in range(20)) + '\n',
                'grp': 'PROTOCOL %s\nSERVER %s\nPARALLEL %s\ng.test\n' % (
                    rng.choice(['UDP', 'UDP', 'TCP', '*']) if on('tcp') else 'UDP', ','.join(u.addr for u in ups[:1 + v % 2]), rng.choice(['ON', 'OFF'])),
                'tpl.html': '<html><!-- INSERT HERE --></html>\n'}
    conf = ['EnableTCPtoUDP true', 'EnableUDPtoTCP true', 'BlockIP 192.0.2.200', 'TCPKeepAlive 2']
    conf += ['UDPGroup %s * %s' % (','.join(u.addr for u in ups), 'on' if on('cache') and rng.random() < 0.5 else 'off')]
    conf += ['TCPGroup %s tcp.test on no' % ','.join(u.addr for u in ups[:2])] if on('tcp') else []
    if on('dead'):
        ups.append(w.upstream('dead0', lambda *a: None))
        ups.append(w.upstream('dead1', lambda srv, q, proto, reply: reply(dns.response(q, [])) if rng.random() < 0.02 else None))
        conf += ['UDPGroup %s,%s dead.test off' % (ups[-2].addr, ups[-1].addr)]
    conf += ['GroupFile {DIR}/grp', 'ReloadGroupFile true'] if on('reload', 'tcp', 'udp') else []
    conf += ['Hosts file://{DIR}/hsrc', 'HostsDownloadPath {DIR}/hdl', 'ModulesUpdateInterval 3',
             'ReloadDisabledList true', 'DisabledList {DIR}/dl', 'ReloadIPSubstituting true', 'IPSubstitutingFile {DIR}/sub']
    conf += ['AppendHosts c1.cache.test static.test', 'AppendHosts 10.1.1.1 st.test']
    if on('cache'):
        conf += ['UseCache true', 'MemoryCache %s' % rng.choice(['true', 'false']), 'CacheSize 102400', 'CacheFile {DIR}/cache',
                 'IgnoreTTL false', 'OverrideTTL -1', 'CacheParallel true', 'CacheControl *.long.test 600']
    else:
        conf += ['UseCache false']
    if on('stat'):
        conf += ['DomainStatistic true', 'DomainStatisticTempletFile {DIR}/tpl.html', 'StatisticInsertionPosition <!-- INSERT HERE -->',
                 'StatisticUpdateInterval 1', 'LogOn true', 'LogFileFolder {DIR}', 'LogFileThresholdLength 20000']
    else:
        conf += ['LogOn false']
    if on('goodip'):
        conf += ['GoodIPList good 500', 'AppendHosts <good> good.test'] + ['GoodIPListAddIP good 127.0.0.1:%d' % u.port for u in ups[:2]] + \
                ['GoodIPListAddIP good 127.0.0.2:%d' % ups[0].port]
    d = c.start(w, conf, files=dict(files(), hdl=files()['hsrc']), variant='tsan')
    if kind == 'allnoise':
        d.noise(800)
    cls = [w.client(d) for _ in range(6)] + [w.tclient(d) for _ in range(2)]
    names = [('h%d.test', 'hosts'), ('d%d.test', 'dis'), ('c%d.cache.test', 'cache'), ('c%d.cache.test', 'cache'), ('u%d.test', 'udp'),
             ('blk%d.test', 'block'), ('lost%d.test', 'lost'), ('x%d.long.test', 'cc')]
    if on('reload', 'udp', 'tcp'):
        names += [('g%d.g.test', 'group')] * 2
    if on('tcp'):
        names += [('t%d.tcp.test', 'tcp')]
    if on('dead'):
        names += [('n%d.dead.test', 'dead')] * (3 if kind == 'dead' else 1)
    names += [('alias.test', 'alias'), ('static.test', 'alias')] * (1 if on('reload', 'cache') else 0)
    if on('goodip'):
        names += [('good.test', 'goodip')] * 3
    st = {'seq': 0, 'stop': False, 'act': 'none'}
    last = {}

    def send(cl):
        st['seq'] += 1
        f, what = rng.choice(names)
        n = f % rng.randrange(20) if '%' in f else f
        q = dns.query(st['seq'] & 0xffff, n, rng.choice([1, 1, 28, 16]))
        last[cl] = (q[:2], what, w.loop.now(), q)
        cl.send(q)

    def on_msg(cl, m):
        if m[:2] != last[cl][0]:
            return
        c.ev()
        c.count('answers_' + last[cl][1])
        c.seen(kind, last[cl][1], cl.__class__.__name__, st['act'])
        if not st['stop']:
            send(cl)
    for cl in cls:
        cl.cb = on_msg
        send(cl)
    secs = (40 if c.thorough() else 9)
    end = w.loop.now() + secs
    nxt = {}
    while w.loop.now() < end and d.alive():
        w.run(None, 0.05)
        now = w.loop.now()
        for cl in cls:
            if now - last[cl][2] > (0.15 if last[cl][1] == 'dead' else 1.0):
                if getattr(cl, 'closed', False):
                    cl2 = w.tclient(d)
                    cls[cls.index(cl)] = cl2
                    cl2.cb = on_msg
                    cl = cl2
                c.count('given_up')
                send(cl)
        if now > nxt.get('adv', 0):
            nxt['adv'] = now + rng.choice([0.3, 0.6])
            d.advance(rng.choice([0.5, 1, 2, 3]))
            st['act'] = 'clock'
            if rng.random() < (0.4 if kind == 'dead' else 0.15):
                d.advance(12)
                st['act'] = 'timeouts'
            if on('cache') and rng.random() < 0.15:
                d.advance(60)
                st['act'] = 'sweep'
        if now > nxt.get('ver', 0):
            nxt['ver'] = now + 0.9
            ver[0] += 1
            for n, x in files().items():
                if n != 'tpl.html':
                    d.write(n, x)
            st['act'] = 'files'
        if rng.random() < 0.03:
            cl = rng.choice(cls[6:])
            cl.close(rst=rng.random() < 0.5)
            i = cls.index(cl)
            cls[i] = w.tclient(d)
            cls[i].cb = on_msg
            send(cls[i])
            c.count('tcp_reconnects')
    st['stop'] = True
    c.count('file_versions', ver[0])
    if d.alive():
        c.alive_check(d, 'the race workload')
    for t in d.san_reports('tsan'):
        for key, text in reports(t):
            c.count('reports')
            c.bad(key, text)
    c.sample({'kind': kind, 'answers': c.evaluations})
