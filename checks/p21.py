"""P21: hosts come complete from all their sources, whatever fails or ends in between."""
import os, re, resource, socket, struct
import dns, wl

LEVEL = 'exploration'
RULE = ('A case is one look-up of a name that some version of some hosts source lists, or one comparison of the saved file, after the sources '
        'changed, failed, were cut short, or the process was killed at a file operation of the update. It must be answered as the last '
        'complete copies say, or, before the update is through, as the copies before. Non-trivial: distinct by (scenario, kind and state of '
        'each source before and after, number of failed tries, kill point, position of the entry).')
ASSUMPTIONS = ['file sources are replaced atomically', 'a web source that fails holds the update back until it succeeds, as HostsRetryInterval says',
               'of several sources those that can be read are used together; if none can, everything stays as it was',
               'a kill ends the process, the operating system goes on', 'time is virtual']

FAILS = ('404', '500', 'cut', 'cutchunk', 'close', 'reset')


def scenarios(tier, seed):
    k = 8 if tier == 'thorough' else 2
    out = []
    for i in range(k):
        for kind in ('files', 'web', 'mixed', 'script', 'full', 'start'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
        for j in range(3):
            out.append(('kill-%d-%d' % (i, j), run, {'kind': 'kill', 'rnd': i * 3 + j}))
    return out


class Web:
    """A web server with one page."""
    def __init__(self, w):
        import world
        self.w = w
        self.port = world.free_port()
        self.body, self.mode, self.fail, self.left, self.times = b'', 'ok', '404', 0, []
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(('127.0.0.1', self.port))
        self.s.listen(64)
        self.s.setblocking(False)
        self.d = None
        self.served = 0
        w.loop.reg(self.s, self.on_accept)

    def on_accept(self, s):
        try:
            c, _ = s.accept()
        except OSError:
            return
        c.setblocking(False)
        st = {'b': b''}
        self.w.loop.reg(c, lambda x: self.on_data(x, st))

    def end(self, c, rst=False):
        self.w.loop.unreg(c)
        if rst:
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        c.close()

    def on_data(self, c, st):
        try:
            b = c.recv(65536)
        except BlockingIOError:
            return
        except OSError:
            b = b''
        if not b:
            self.end(c)
            return
        st['b'] += b
        if b'\r\n\r\n' not in st['b']:
            return
        path = st['b'].split()[1].decode()
        mode = self.mode
        if path == '/hosts':
            self.times.append(self.d.vtime() if self.d else 0)
            if self.left:
                self.left -= 1
                mode = self.fail
        body = self.body
        c.setblocking(True)
        c.settimeout(20)
        junk = b'<html>\n10.250.0.1 error.page.test\n</html>\n'
        try:
            if mode == '404':
                c.sendall(b'HTTP/1.1 404 Not Found\r\nContent-Type: text/html\r\nContent-Length: %d\r\n\r\n' % len(junk) + junk)
            elif mode == '500':
                c.sendall(b'HTTP/1.1 500 Internal Server Error\r\nContent-Length: %d\r\n\r\n' % len(junk) + junk)
            elif mode == 'cut':
                c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n' % len(body) + body[:len(body) // 2])
            elif mode == 'cutchunk':
                p = body[:len(body) // 2]
                c.sendall(b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n' % len(p) + p + b'\r\n')
            elif mode == 'reset':
                c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n' % len(body) + body[:len(body) // 3])
                self.end(c, True)
                return
            elif mode == 'close':
                pass
            elif mode == 'redirect' and path == '/hosts':
                c.sendall(b'HTTP/1.1 302 Found\r\nLocation: http://127.0.0.1:%d/real\r\nContent-Length: %d\r\n\r\n' % (self.port, len(junk)) + junk)
            else:
                self.served += 1
                if mode == 'chunked':
                    o, step = b'', max(1, len(body) // 7)
                    for i in range(0, len(body), step):
                        p = body[i:i + step]
                        o += b'%x\r\n' % len(p) + p + b'\r\n'
                    c.sendall(b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n' + o + b'0\r\n\r\n')
                elif mode == 'till-close':
                    c.sendall(b'HTTP/1.0 200 OK\r\n\r\n' + body)
                else:
                    c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n' % len(body) + body)
        except OSError:
            pass
        self.end(c)


class Source:
    def __init__(self, i, kind, rng, web=None):
        self.i, self.kind, self.rng, self.web = i, kind, rng, web
        self.ver = -1
        self.sizes = []
        self.state = 'ok'           # what an update finds: 'ok', or for files 'gone', 'dir'
        self.name = rng.choice(['src%d', 'a' * 230 + '%d', 'home/Src%d', 'x' * 100 + '%d']) % i

    def new(self, n):
        self.ver += 1
        self.sizes.append(n)
        self.eol = self.rng.choice(['\n', '\n', '\r\n'])
        self.last = self.rng.random() < 0.6
        self.note = self.rng.random() < 0.5

    def unique(self, v, k):
        return 'u%d.v%d.s%d.hosts.test' % (k, v, self.i)

    def addr(self, v, k, pre=9):
        return '10.%d.%d.%d' % (pre, self.i * 60 + v % 60, k % 250)

    def lines(self, v):
        out = ['%s %s' % (self.addr(v, k), self.unique(v, k)) for k in range(self.sizes[v])]
        out.insert(len(out) // 2, '%s c%d.hosts.test' % (self.addr(v, 251), self.i))
        return out

    def body(self):
        l = self.lines(self.ver)
        b = self.eol.join(l).encode()
        if self.note:
            # any bytes may stand in a comment, at the start, in the middle, at the end
            x = b'#' + bytes([255, 0xfe, 26, 0x80, 0xc3, 0xa9, 4, 255]) + self.eol.encode()
            p = b.find(b'\n', len(b) // 2) + 1
            b = x + b[:p] + x + b[p:]
        return b + (self.eol.encode() if self.last else b'')


def run(c, kind, rnd):
    w, rng = c.world(), c.rng
    u = w.upstream('u', wl.std_handler(salt=7))
    shape = {'files': ['file'] * rng.choice([1, 2, 3]), 'web': ['web'] * rng.choice([1, 2, 3]),
             'mixed': rng.sample(['file', 'web', 'file', 'web'], 3), 'script': [rng.choice(['file', 'web']), 'file'][:rng.choice([1, 2])],
             'full': [rng.choice(['file', 'web'])] + ['file'] * rng.choice([0, 1]),
             'start': [rng.choice(['file', 'web'])] * rng.choice([1, 2]),
             'kill': [['file', 'web'][rnd % 2]] + ['file'] * rng.choice([0, 1])}[kind]
    srcs = [Source(i, k, rng, Web(w) if k == 'web' else None) for i, k in enumerate(shape)]
    retry = rng.choice([5, 9])
    every = 40
    pre = 8 if kind == 'script' else 9
    size = lambda: rng.choice([0, 1, 3, 40, 700, 2500])
    dirs = {}

    def put(s):
        if s.kind == 'web':
            s.web.body = s.body()
            return
        p = os.path.join(d.dir, s.name)
        if os.path.isdir(p):
            os.rmdir(p)
        if s.state == 'ok':
            d.write(s.name, s.body())
        else:
            if os.path.exists(p):
                os.unlink(p)
            if s.state == 'dir':
                os.mkdir(p)

    for s in srcs:
        s.new(size() if kind != 'full' else 50)
    urls = [('file://{DIR}/' + s.name).replace('{DIR}/home', '${DNSF_HOME}') if s.kind == 'file' else 'http://127.0.0.1:%d/hosts' % s.web.port for s in srcs]
    conf = ['LogOn false', 'UseCache false', 'UDPGroup %s * off' % u.addr, 'HostsRetryInterval %d' % retry, 'ModulesUpdateInterval %d' % every,
            'HostsDownloadPath {DIR}/hdl']
    conf += ['Hosts ' + x for x in urls]
    files = {s.name: s.body() for s in srcs if s.kind == 'file'}
    for s in srcs:
        if s.web:
            s.web.body = s.body()
    if kind == 'script':
        ok = rng.choice([0, 0, 1])
        files['run.sh'] = '#!/bin/sh\nsed -i "s/10\\.9\\./10.8./" "$(dirname "$0")/hdl"\necho x >> "$(dirname "$0")/runs"\nexit %d\n' % ok
        conf.append('HostsScript sh {DIR}/run.sh' if rng.random() < 0.3 else 'HostsScript {DIR}/run.sh')
    old = None
    if kind == 'start':
        # the file of an earlier run is there, the sources are not yet
        old = Source(3, 'file', rng)
        old.new(30)
        files['hdl'] = old.body()
        for s in srcs:
            if s.kind == 'file':
                del files[s.name]
                s.state = 'gone'
            else:
                s.web.fail, s.web.left = rng.choice(FAILS), 10 ** 9
    if kind == 'script':
        d = c.start(w, conf, files=files, ready=False)
        os.chmod(os.path.join(d.dir, 'run.sh'), 0o755)
        if not d.ready():
            c.live('not-serving', 'not serving')
            return
        # the first update may have come before the script could be executed
    else:
        d = c.start(w, conf, files=files)
    for s in srcs:
        if s.web:
            s.web.d = d
    cl = w.client(d)
    qid = [rng.randrange(60000)]

    def ask(name):
        """('h', address) from hosts, ('f', None) when forwarded."""
        for _ in range(12):
            qid[0] = (qid[0] + 1) & 0xffff
            q = dns.query(qid[0], name, 1)
            ns = len(u.log)
            cl.send(q)
            w.run(lambda: cl.rx and cl.rx[-1][1][:2] == q[:2], 0.8)
            if cl.rx and cl.rx[-1][1][:2] == q[:2]:
                break
        else:
            c.live('unanswered', 'no answer for %s' % name)
            return None
        c.ev()
        m = dns.parse(cl.rx[-1][1])
        if any(wl.qinfo(x[2])[1] == name.lower() for x in u.log[ns:]):
            return ('f', None)
        if len(m.an) == 1 and m.an[0].type == 1:
            return ('h', m.an[0].value)
        return ('?', cl.rx[-1][1].hex())

    def value(s, v):
        return ('f', None) if v is None else ('h', s.addr(v, 251, pre))

    def alive():
        return d.alive()

    def saved_is(eff):
        """Does the saved file hold exactly these versions, in the order of the sources?"""
        try:
            t = open(os.path.join(d.dir, 'hdl'), 'rb').read().decode('latin-1')
        except OSError as e:
            return str(e)
        got = [x for x in t.replace('\r', '').split('\n') if x and x[0] != '#']
        want = []
        for s, v in zip(srcs, eff):
            if v is not None:
                want += [x.replace('10.9.', '10.%d.' % pre, 1) for x in s.lines(v)]
        if got == want:
            return None
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return '%d lines instead of %d, first difference in line %d: %r' % (len(got), len(want), i + 1, got[i:i + 1])

    def whole(eff, what):
        """Entries of all versions: those of `eff' are there, all others are not."""
        for s, v in zip(srcs, eff):
            for x in range(s.ver + 1):
                n = s.sizes[x]
                if not n:
                    continue
                for k in sorted({0, n - 1, n // 2, rng.randrange(n), rng.randrange(n)}):
                    r = ask(s.unique(x, k))
                    if r is None:
                        return False
                    exp = ('h', s.addr(x, k, pre)) if x == v else ('f', None)
                    if r != exp:
                        c.bad('not-the-copy', '%s: entry %d of %d of version %d of source %d (%s) gives %s instead of %s; versions in force: %s' % (
                            what, k, n, x, s.i, s.kind, r, exp, eff))
                        return False
                    c.seen(kind, s.kind, x == v, k == 0, k == n - 1, n)
            r = ask('c%d.hosts.test' % s.i)
            if r is None:
                return False
            if r != value(s, v):
                c.bad('not-the-copy', '%s: the entry common to all versions of source %d gives %s instead of %s' % (what, s.i, r, value(s, v)))
                return False
        r = ask('error.page.test')
        if r is not None and r[0] != 'f':
            c.bad('error-page', 'an entry out of an error page of the web server is in force')
            return False
        return True

    def until(eff, new, what, steps=60, push=True):
        """Everything is answered as before or as after, in the end as after."""
        done = [False] * len(srcs)
        # the retries of web sources are timed in small steps
        step = 1 if any(s.web and s.web.left for s in srcs) else 4
        for i in range(steps):
            if push:
                d.advance(every * 0.7 if i == 0 and eff != new else step)
            w.run(None, 0.02)
            for j, s in enumerate(srcs):
                r = ask('c%d.hosts.test' % s.i)
                if r is None:
                    return False
                if r == value(s, new[j]):
                    done[j] = True
                elif r != value(s, eff[j]) or done[j]:
                    c.bad('wrong-version', '%s: source %d (%s) gives %s; before it was %s, afterwards %s%s' % (
                        what, s.i, s.kind, r, value(s, eff[j]), value(s, new[j]), ', which was already seen' if done[j] else ''))
                    return False
            if all(done) and eff != new:
                return True
        if eff == new:
            return True
        c.live('not-taken', '%s: after %d s of the interval of %d s the sources %s still do not give %s' % (
            what, steps, every, [s.kind for s in srcs], new))
        return False

    eff = [None] * len(srcs)
    if kind == 'start':
        for k in (0, 15, 29):
            r = ask(old.unique(0, k))
            if r is None:
                return
            if r != ('h', old.addr(0, k)):
                c.bad('saved-file-not-used', 'the hosts saved by an earlier run are not in force while the sources cannot be read: entry %d gives %s' % (k, r))
                return
        if not until(eff, eff, 'sources dead since the start', 60):
            return
        for s in srcs:
            s.state = 'ok'
            if s.web:
                s.web.left = 0
            put(s)
        if not until(eff, [s.ver for s in srcs], 'sources came up', 80):
            return
        eff = [s.ver for s in srcs]
        r = ask(old.unique(0, 3))
        if r is None or r[0] != 'f':
            c.bad('old-kept', 'an entry of the replaced hosts file is still in force: %s' % (r,))
            return
    else:
        new = [s.ver for s in srcs]
        if kind == 'script':
            # (see above) let the next update come
            for s in srcs:
                s.new(size())
                put(s)
            new = [s.ver for s in srcs]
            pend = True
            for i in range(80):
                d.advance(1)
                w.run(None, 0.04)
                if all(ask('c%d.hosts.test' % s.i) == value(s, v) for s, v in zip(srcs, new)):
                    pend = False
                    break
            if pend:
                c.live('not-taken', 'the script\'s output never came into force')
                return
        elif not until(eff, new, 'first update', 60, push=False):
            return
        eff = new
    if not whole(eff, 'after the start'):
        return
    phases = {'kill': 10, 'full': 3, 'start': 2}.get(kind, 5) * (2 if c.thorough() else 1)
    for ph in range(phases):
        base = eff
        new = list(eff)
        runs = lambda: len(open(os.path.join(d.dir, 'runs')).read().split()) if os.path.exists(os.path.join(d.dir, 'runs')) else 0
        plan = []
        for j, s in enumerate(srcs):
            if s.kind == 'file' and kind in ('files', 'mixed', 'script') and rng.random() < 0.35:
                s.state = rng.choice(['gone', 'dir'])
                new[j] = None
            elif kind in ('full', 'kill') or s.state != 'ok' or rng.random() < 0.8:
                s.state = 'ok'
                s.new(size() if kind != 'full' else 1500)
                new[j] = s.ver
            else:
                new[j] = s.ver
            if s.web:
                s.web.mode = rng.choice(['ok', 'ok', 'chunked', 'redirect', 'till-close'])
                s.web.fail = rng.choice(FAILS)
                s.web.left = rng.choice([0, 0, 1, 2, 4]) if kind not in ('kill', 'full') else 0
                s.web.times = []
            plan.append((s.kind, s.state, s.web and (s.web.mode, s.web.left and s.web.fail, s.web.left)))
        if all(s.kind == 'file' and s.state != 'ok' for s in srcs):
            new = list(eff)
        what = 'phase %d %s' % (ph, plan)
        n0 = runs()
        if kind == 'full':
            # no space for the new copy
            resource.prlimit(d.p.pid, resource.RLIMIT_FSIZE, (rng.choice([20000, 45000]), resource.RLIM_INFINITY))
            for s in srcs:
                put(s)
            if not until(eff, eff, what + ' without space', 60) or not whole(eff, what + ' without space'):
                return
            e = saved_is(eff)
            if e:
                c.bad('saved-file', '%s: no space for the new hosts, and the saved file does not hold the old ones: %s' % (what, e))
                return
            resource.prlimit(d.p.pid, resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            c.seen(kind, 'space', tuple(shape))
        if kind == 'kill':
            for s in srcs:
                put(s)
            at = 1 + (rnd // 2 * 7 + ph - ph // 3 - 1) % 20 if ph % 3 else None
            if at:
                d._set(12, at)
            d.advance(every + 5)
            end = w.loop.now() + 1.5
            if at:
                while d.alive() and w.loop.now() < end and d._get(12) > 0:
                    w.run(None, 0.02)
            else:
                w.run(None, rng.choice([0.0, 0.001, 0.003, 0.01, 0.02, 0.03, 0.05, 0.2]))
            w.run(None, 0.05)
            died = not d.alive()
            d.killed = True
            d.kill()
            d._set(12, 0)
            # the saved file is whole
            is_old, is_new = saved_is(eff), saved_is(new)
            c.seen(kind, tuple(shape), at, is_new is None)
            c.count('kills')
            c.ev()
            if is_old and is_new:
                c.bad('saved-file', '%s: killed %s, and the saved file holds neither the old hosts (%s) nor the new ones (%s)' % (
                    what, 'at file operation %d of the update' % at if at else 'during the update', is_old, is_new))
                return
            now = eff if is_old is None else new
            for s in srcs:
                if s.web:
                    s.web.left, s.web.fail = 10 ** 9, 'close'
                else:
                    s.state = 'gone'
                    put(s)
            d.start()
            w.daemons.remove(d)
            if not d.ready():
                c.live('no-restart', 'the daemon does not serve after it was killed during an update\n' + d.stdout()[-500:])
                return
            if not whole(now, what + ' after the restart'):
                return
            for s in srcs:
                s.state = 'ok'
                if s.web:
                    s.web.left = 0
                put(s)
            eff = now
            what += ' after the restart'
        else:
            for s in srcs:
                put(s)
        if not until(eff, new, what, 140):
            return
        if kind == 'script':
            w.run(None, 0.3)
            if new != eff and runs() <= n0:
                c.bad('script-not-run', '%s: new hosts are in force, but the script was not run' % what)
                return
            if all(s.state != 'ok' for s in srcs) and runs() > n0 + 1:
                c.bad('script-run', '%s: the script was run %d times although no source could be read' % (what, runs() - n0))
                return
        if not whole(new, what):
            return
        e = saved_is(new)
        if e:
            # an update may just be writing it
            w.run(None, 0.5)
            e = saved_is(new)
        if e:
            c.live('saved-file', '%s: the saved file is not what is in force: %s' % (what, e))
            return
        for s in srcs:
            if s.web:
                t = s.web.times
                fails = [p for p in plan[s.i][2:]][0]
                for a, b in list(zip(t, t[1:]))[:fails[2]]:
                    if b - a < retry - 1.2:     # the virtual clock moves in steps of 1 s
                        c.bad('retry-too-early', 'a failed download was tried again after %.2f s, HostsRetryInterval is %d' % (b - a, retry))
                        return
                    if b - a > retry + 12:
                        c.live('retry-too-late', 'a failed download was tried again after %.2f s, HostsRetryInterval is %d' % (b - a, retry))
                        return
                    c.count('retries_timed')
        c.seen(kind, tuple(plan), new == base)
        c.count('versions_taken', new != base)
        eff = new
    c.check_daemons()
