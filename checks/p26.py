"""P26: whatever list files hold, the service stays up and the good lines in them take effect."""
import dns, wl

LEVEL = 'exploration'
VARIANTS = ['asan']
RULE = ('A case is one version of the hosts, disabled and substitution files made of hostile lines (malformed, cut, over-long and binary addresses, names, patterns, '
        'list references and prefixes) and one good marker line somewhere among them. The sanitizers watch the loading and the queries that use what was loaded; '
        'the marker of each file must take effect. Likewise group files, and the values of the configuration file (there only the sanitizers and the survival '
        'of what starts judge). Non-trivial: distinct by kind of hostile line and file.')
ASSUMPTIONS = ['the line behind one with a NUL byte may be lost', 'hostile patterns hold at most four stars', 'time is virtual: the reload interval is made to pass']


def scenarios(tier, seed):
    out = []
    for i in range(3 if tier == 'quick' else 12):
        out.append(('lists-%d' % i, lists, {'rnd': i}))
        out.append(('groups-%d' % i, groups, {'rnd': i}))
        out.append(('values-%d' % i, values, {'rnd': i}))
    return out


def hexs(rng):
    return '%x' % rng.choice([0, 1, 0xa, 0xff, 0xffff, 0x10000, 0xffffffff, 1 << 40, rng.randrange(1 << 16)])


def ip6(rng):
    k = rng.choice(['many', 'many', 'cut', 'zone', 'left', 'right', 'odd', 'ok', 'v4'])
    n = rng.choice([1, 2, 7, 8, 9, 10, 12, 17, 33, 60])
    g = [hexs(rng) if n < 12 else '%x' % rng.randrange(16) for _ in range(n)]
    if k == 'many':
        return k, ':'.join(g) + rng.choice(['', ':', ':1'])
    if k == 'left':
        return k + str(n > 8), ':'.join(g) + '::' + rng.choice(['', '1', '1:2'])
    if k == 'right':
        return k + str(n > 8), rng.choice(['', '1', '1:2']) + '::' + ':'.join(g)
    if k == 'cut':
        return k, '2001:db8:1:2:3:4:5:6'[:rng.randrange(1, 20)]
    if k == 'zone':
        return k, 'fe80::1%' + rng.choice(['', 'lo', 'x' * 100])
    if k == 'odd':
        return k, rng.choice([':', '::', ':::', '::::', ':1', '1:', '::1::', '1::2::3', 'g::1', '::g', '[::1]', '1:2:3', ':1:2:3:4:5:6:7:8', '::%', '%::', '1%2:3', ':::1', '1:::', ': :'])
    if k == 'v4':
        return k, '::ffff:' + ip4(rng)[1]
    return k, '2001:db8::%x' % rng.randrange(1 << 16)


def ip4(rng):
    k = rng.choice(['few', 'more', 'big', 'neg', 'odd', 'ok', 'long'])
    return 'v4' + k, {'few': '.'.join(str(rng.randrange(256)) for _ in range(rng.randrange(1, 4))), 'more': '.'.join(str(rng.randrange(256)) for _ in range(rng.randrange(5, 40))),
                      'big': '300.%d.99999999999.1' % rng.randrange(9999), 'neg': '-1.2.-3.4', 'odd': rng.choice(['.', '..', '...', '1.', '.1', '1..2', '1.2.3.', '1.2.3.4.', '1,2,3,4', '0x1.2.3.4']),
                      'ok': '10.77.%d.%d' % (rng.randrange(256), rng.randrange(256)), 'long': '1' * rng.randrange(5, 300) + '.2.3.4'}[k]


def name(rng):
    k = rng.choice(['plain', 'plain', 'long', 'huge', 'label', 'dots', 'bin', 'pat', 'pat', 'esc', 'empty'])
    n = rng.randrange(1000)
    return k, {'plain': 'g%d.junk' % n, 'long': '.'.join(['l%d' % n] + ['x' * 30] * rng.choice([6, 7, 8, 9])) + '.junk', 'huge': 'h' * rng.choice([300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 9000, 70000]),
               'label': 'y' * rng.choice([62, 63, 64, 200]) + '.junk', 'dots': rng.choice(['.', '..', '.junk', 'a..junk', 'junk.', '...junk...']),
               'bin': ''.join(chr(rng.choice([1, 7, 0x80, 0xff, 0xfe, 0xc0, 0x41])) for _ in range(rng.randrange(1, 40))) + '.junk',
               'pat': rng.choice(['[', '[a', '[!', '[[:', '[[:alpha:]', '[]', '[a-', '[z-a]', '*?', '?', '*.junk[', '[[.', '[[=a', '[\\', 'a*[^', '[' * 200, '?' * 250, '*a*b*c*']) + '.junk',
               'esc': '\\' * rng.choice([1, 2, 3, 100]) + 'junk', 'empty': ''}[k]


def sep(rng):
    return rng.choice([' ', '  ', '\t', ' \t ', '', '\v', '\r'])


def line(rng, what):
    """(kind, line)"""
    if rng.random() < 0.06:
        return 'raw', ''.join(chr(rng.choice([rng.randrange(1, 256), 9, 32, 58, 46])) for _ in range(rng.choice([1, 5, 80, 600, 5000]))).replace('\n', '')
    if rng.random() < 0.03:
        return 'nul', 'a\0b c\0d.junk\n'
    nk, n = name(rng)
    if what == 'dis':
        return nk, n
    if what == 'sub':
        k1, a = rng.choice([ip4, ip6])(rng)
        k2, b = rng.choice([ip4, ip6])(rng)
        p = rng.choice(['', '', '/', '/8', '/0', '/32', '/33', '/128', '/129', '/-1', '/x', '/99999999999', '//', '/7'])
        return (k1, k2, p), a + p + rng.choice([' ', '\t', '']) + rng.choice([b, b, ''])
    r = rng.random()
    if r < 0.35:
        k, a = ip6(rng)
    elif r < 0.55:
        k, a = ip4(rng)
    elif r < 0.7:
        k, a = rng.choice([('list', '<>'), ('list', '<'), ('list', '<a'), ('list', 'a>'), ('list', '<%s>' % ('z' * rng.choice([126, 127, 128, 200]))), ('list', '<no>'), ('list', '<<>>'), ('list', '<g>')])
    elif r < 0.8:
        k, a = 'excl', rng.choice(['@', '@@', '@@x', '@@@@'])
    else:
        k, a = name(rng)
    return (k, nk), rng.choice(['', '', ' ', '\t']) + a + sep(rng) + n + rng.choice(['', '', ' x', ' #', ' ' + n])


def content(c, rng, what, good, n):
    ls = []
    for _ in range(n):
        k, l = line(rng, what)
        c.seen(what, str(k))
        ls.append(l)
    ls.insert(rng.randrange(len(ls) + 1), good)
    t = rng.choice(['\n', '\n', '\r\n']).join(ls)
    return t + rng.choice(['', '\n'])


def probes(rng, text):
    """Queries for names that the lines speak of."""
    out = []
    for l in text.split('\n'):
        for f in l.split():
            if f.endswith('junk') and f != 'junk':
                f = f.replace('*', 'k').replace('?', 'q')
                if all(0 < len(x) < 64 for x in f.split('.')) and len(f) < 250:
                    out.append(f)
    rng.shuffle(out)
    return out[:25]


def handler(c, rng):
    def handle(srv, q, proto, reply):
        n, t = wl.qinfo(q)[1:3]
        if n.startswith('mark.'):
            i = int(n.split('.')[1])
            reply(dns.response(q, [dns.rr(dns.ptr(12), 1, 60, bytes([10, 1, i, 1]))]))
        elif n.endswith('.junk') and t == 28:
            reply(dns.response(q, [dns.rr(dns.ptr(12), 28, 60, bytes([0x20, 1, 0xd, 0xb8] + [0] * 11 + [rng.randrange(256)]))]))
        else:
            reply(dns.response(q, [dns.rr(dns.ptr(12), 1, 60, bytes([rng.choice([1, 10, 77, 255, 0]), 2, 3, 4]))]) if t == 1 else wl.std_answer(q))
    return handle


def lists(c, rnd):
    w, rng = c.world(), c.rng
    u = w.upstream('u', handler(c, rng))
    conf = ['LogOn %s' % rng.choice(['true', 'false']), 'UseCache %s' % rng.choice(['true', 'false']), 'UDPGroup %s * off' % u.addr, 'Hosts file://{DIR}/hsrc', 'HostsDownloadPath {DIR}/hdl', 'ModulesUpdateInterval 60',
            'HostsUpdateInterval 60', 'ReloadDisabledList true', 'DisabledList {DIR}/dl', 'ReloadIPSubstituting true', 'IPSubstitutingFile {DIR}/sub', 'GoodIPList g 100000',
            'GoodIPListAddIP g 127.0.0.1:%d' % u.port, 'BlockIpv6WhenIpv4Exists %s' % rng.choice(['true', 'false'])]

    def version(v):
        n = rng.choice([3, 20, 60, 150])
        return {'hsrc': content(c, rng, 'hosts', '10.3.%d.3 h%d.mark.test' % (v, v), n), 'dl': content(c, rng, 'dis', 'd%d.mark.test' % v, n),
                'sub': content(c, rng, 'sub', '10.1.%d.1 10.2.%d.2' % (v, v), n)}
    fs = version(0)
    d = c.start(w, conf, files=fs)
    cl = w.client(d)
    num = [0]

    def ask(n, t=1, wait=0.5):
        num[0] += 1
        q = dns.query(num[0] & 0xffff, n, t)
        del cl.rx[:]
        cl.send(q)
        if not w.run(lambda: any(m[1][:2] == q[:2] for m in cl.rx), wait):
            return None
        try:
            return dns.parse([m[1] for m in cl.rx if m[1][:2] == q[:2]][-1])
        except dns.Bad as e:
            c.bad('malformed', 'the reply for %s does not parse: %s' % (n, e))
            return None

    def in_force(v):
        def first(r):
            return None if r is None else (r.an[0].value if r.an and r.an[0].type == 1 else '')
        return {'hosts': first(ask('h%d.mark.test' % v)) == '10.3.%d.3' % v, 'disabled': first(ask('d%d.mark.test' % v)) == '',
                'substitutions': first(ask('mark.%d.x%d.test' % (v, num[0]))) == '10.2.%d.2' % v}
    for v in range(8 if not c.thorough() else 25):
        if v:
            fs = version(v)
            for n in fs:
                d.write(n, fs[n])
        for i in range(100):
            if v or i:
                d.advance(65 if not i else 5)
            ok = in_force(v)
            if all(ok.values()) or not d.alive() or c.violations:
                break
            w.run(None, 0.1)
        if not d.alive() or c.violations:
            c.sample({'files': {k: t[:3000] for k, t in fs.items()}})
            return
        if not all(ok.values()):
            c.live('not-in-force', 'the good line of version %d of %s among the hostile ones did not take effect: %r' % (v, [k for k in ok if not ok[k]], {k: t[:1500] for k, t in fs.items()}))
            return
        c.ev()
        c.count('good_lines_in_force', 3)
        for n in probes(rng, fs['hsrc'])[:25] + probes(rng, fs['dl'])[:8]:
            for t in (1, 28):
                if ask(n, t, 0.1) is not None:
                    c.count('hostile_names_answered')
                c.count('hostile_names_asked')
    c.alive_check(d, 'hostile lists')


def groups(c, rnd):
    w, rng = c.world(), c.rng
    u = w.upstream('u', handler(c, rng))
    good = 'PROTOCOL UDP\nSERVER %s\nPARALLEL OFF\ngood%%d.test\n' % u.addr

    def val(*good):
        v = rng.choice(['', 'x', 'on' * rng.choice([4, 20, 150]), 'z' * rng.choice([7, 8, 255, 370]), ',', '[' * 50, '[::1', '[' + 'a:' * rng.choice([8, 30, 100]) + ']', '[::1]:x', '127.0.0.1:', ip4(rng)[1], '[%s]:53' % ip6(rng)[1], '127.0.0.1:%d' % rng.choice([0, 70000, -1]), '\xff', name(rng)[1][:400]])
        return rng.choice(good) if rng.random() < 0.6 else v.replace('test', '')

    def bad():
        o = []
        if rng.random() < 0.6:
            # nearly right
            c.seen('nearly')
            return 'PROTOCOL %s\nSERVER %s\nPARALLEL %s\nPROXY %s\n%s\n' % (val('UDP', 'TCP', '*', 'udp'), val(u.addr, u.addr + ',' + val(u.addr)), val('ON', 'OFF'), val('no', 'NO', '127.0.0.1:1'), val('junk.zz', '*.junk', 'x.zz,y.zz'))
        for _ in range(rng.choice([1, 3, 12])):
            o.append(rng.choice(['PROTOCOL', 'SERVER', 'PARALLEL', 'PROXY', 'protocol', '', 'LIST', 'X']) + sep(rng) +
                     rng.choice(['', 'UDP', 'TCP', '*', 'x' * 3000, 'on', 'no', '127.0.0.1:', '127.0.0.1:x', '127.0.0.1:99999999', '[::1]:', '[::1', '[]', '[::1]x', ',', ',,,', '127.0.0.1,', ip4(rng)[1], '[%s]:53' % ip6(rng)[1],
                                 '/no/such', '\xff\xfe', '[' + 'a:' * 40 + ']']))
            c.seen('group', o[-1][:12])
        o += [name(rng)[1] for _ in range(rng.choice([0, 1, 5]))]
        return '\n'.join(x if 'test' not in x else '' for x in o) + rng.choice(['', '\n'])
    d = c.start(w, ['UseCache false', 'LogOn false', 'ModulesUpdateInterval 60', 'ReloadGroupFile true', 'Hosts file://{DIR}/hsrc', 'HostsDownloadPath {DIR}/hdl', 'UDPGroup %s * off' % u.addr, 'UDPGroup %s *.test,test off' % u.addr,
                    'GroupFile {DIR}/g1', 'GroupFile {DIR}/g2'], files={'g1': good % 0, 'g2': good % 1, 'hsrc': '1.2.3.4 a.b\n'})
    for v in range(60 if not c.thorough() else 150):
        d.write(rng.choice(['g1', 'g2']), bad() if rng.random() < 0.8 else good % v)
        d.advance(65)
        w.run(None, 0.06)
        if not d.alive():
            return
        c.ev()
        c.count('group_files')
        cl = w.client(d)
        cl.send(dns.query(v + 1, 'x%d.test' % v, 1))
        w.run(lambda: cl.rx, 0.3)
        c.count('answered_meanwhile', 1 if cl.rx else 0)
        cl.close()
    for g in ('g1', 'g2'):
        d.write(g, good % 7)
    d.advance(65)
    w.run(None, 0.1)
    d.advance(65)
    c.alive_check(d, 'hostile group files', name='ready.test')


def values(c, rnd):
    """Values of the configuration file that nobody should write."""
    w, rng = c.world(), c.rng
    u = w.upstream('u', handler(c, rng))
    for i in range(14 if not c.thorough() else 60):
        lines = []
        for _ in range(rng.choice([1, 4, 15])):
            a = rng.choice(['', ' ', '*', '1', '-1', '99999999999', 'x', 'x y', 'x y z', '0', '2147483647', '$', '$$', '$$fixed', 'a $', 'a $$', 'a fixed', 'a vari', 'a vari x', 'a fixed -5', 'a vari 1x', 'a vari 99999999999x+9', 'z' * 126 + ' fixed 1',
                            'z' * 300 + ' fixed 1', 'g', 'g 1', 'g 127.0.0.1', 'g 127.0.0.1:', 'g x:1', 'no 127.0.0.1:1', 'g 0', 'g -1', 'g g g', ',', ',,', '127.0.0.1:', '127.0.0.1:x', '[::1', '[::1]:', 'true,', ip4(rng)[1], ip6(rng)[1],
                            ip4(rng)[1] + ' ' + ip6(rng)[1], ip6(rng)[1] + '/64 ' + ip4(rng)[1], name(rng)[1][:2000], ip6(rng)[1] + ' v.junk', ip4(rng)[1] + ' v.junk', '<> v.junk', '<g v.junk'])
            k = rng.choice(['CacheControl', 'CacheControl', 'GoodIPList', 'GoodIPListAddIP', 'DisabledType', 'DisabledDomain', 'DisabledList', 'BlockIP', 'IPSubstituting', 'IPSubstitutingFile', 'AppendHosts', 'AppendHosts',
                            'ExcludedHosts', 'Hosts', 'OverrideTTL', 'MultipleTTL', 'CacheSize', 'BlockNegativeResponse', 'UDPGroup', 'TCPGroup', 'GroupFile', 'DomainStatistic', 'LogFileThresholdLength', 'BlockIpv6WhenIpv4Exists',
                            'ModulesUpdateInterval', 'HostsRetryInterval', 'NoSuchOption', ''])
            if k == 'CacheSize' and a.strip().isdigit() and int(a) > 10000000:
                continue
            if k in ('Hosts', 'GroupFile', 'DisabledList', 'IPSubstitutingFile') and '/' not in a:
                a = '{DIR}/' + a.replace('/', '')
            if k in ('UDPGroup', 'TCPGroup') and rng.random() < 0.7:
                a = rng.choice(['[::1', '[' * 9, '[' + 'a:' * rng.choice([8, 30, 100]) + ']', a.split(' ')[0]]) + ' ' + rng.choice(['*', a]) + rng.choice([' off', ' on', ''])
            lines.append(k + rng.choice([' ', '\t', '']) + a)
            c.seen('value', k, a[:12])
        d = w.daemon(['LogOn false', 'UDPGroup %s * off' % u.addr, 'GoodIPList g 1000'] + lines)
        d.expect_alive = False
        # a service that declines to start is fine
        if d.ready(1.2):
            c.count('started')
            cl = w.client(d)
            for j, n in enumerate(['v.junk', 'a', 'x.a', 'z.z', 'mark.1.test', 'g1.junk']):
                for t in (1, 28, 16):
                    cl.send(dns.query(j * 8 + t, n, t))
            w.run(lambda: len(cl.rx) >= 15, 0.2)
            if not d.alive() and not d.san_reports('san'):
                c.bad('daemon-died', 'the daemon served and ended by itself with status %s, with %r\n%s' % (d.p.returncode, lines, d.stdout()[-800:]))
            cl.close()
        elif d.p.poll() is not None and d.p.returncode < 0:
            c.bad('daemon-died', 'the daemon was ended by signal %d with %r\n%s' % (-d.p.returncode, lines, d.stdout()[-800:]))
        reps = d.san_reports('san')
        if reps and all('heap-use-after-free' in r and d.p.poll() is not None or 'signed integer overflow' in r or 'outside the range of representable' in r for r in reps):
            # it declined to start: its threads run on while the main thread clears up and leaves; intervals of years are nothing to do with memory
            w.daemons.remove(d)
            d.kill()
            continue
        d.kill()
        c.ev()
        c.count('configurations')
