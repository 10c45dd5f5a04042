"""P24: in the background the service is the same as in the foreground."""
import ctypes, os, re, signal, subprocess, time
import dns, wl, world
from runner import Abort

LEVEL = 'exploration'
RULE = ('A case is one observation of a service started with -d (and, as a control, without): a query and its reply, an update with a script that '
        'reads and writes its standard streams, a signal to the starter\'s group, a line of the log, a cached answer after a restart, the bytes '
        'of a file or connection. Each must be as due in the foreground, and what the script writes must turn up nowhere. Non-trivial: distinct '
        'by (scenario, way of starting, what was open, kind of observation, noise of the script).')
ASSUMPTIONS = ['the standard streams of the starter are a pipe, a file or /dev/null']
NOISE = b'NOISE-of-the-script'


def scenarios(tier, seed):
    k = 6 if tier == 'thorough' else 2
    out = []
    for i in range(k):
        for kind in ('log', 'nolog', 'tcponly', 'cachefile', 'memory', 'stat', 'default', 'fg', 'many'):
            out.append(('%s-%d' % (kind, i), run, {'kind': kind, 'rnd': i}))
    return out


class Orphan:
    """The background process, with the interface of Popen."""
    def __init__(self, pid):
        self.pid, self.returncode = pid, None

    def poll(self):
        if self.returncode is None:
            try:
                p, st = os.waitpid(self.pid, os.WNOHANG)
                if p:
                    self.returncode = os.waitstatus_to_exitcode(st)
            except ChildProcessError:
                try:
                    f = open('/proc/%d/stat' % self.pid).read().rsplit(')', 1)[1].split()
                    if f[0] == 'Z':
                        self.returncode = -999
                except OSError:
                    self.returncode = -999
        return self.returncode

    def wait(self, timeout=None):
        end = time.monotonic() + (timeout or 1e9)
        while self.poll() is None:
            if time.monotonic() > end:
                raise subprocess.TimeoutExpired('daemon', timeout)
            time.sleep(0.005)
        return self.returncode


class Bg(world.Daemon):
    stream = 'pipe'
    verdict = None
    starter = None

    def start(self):
        if '-d' not in self.args:
            return super().start()
        self.verdict = None
        self.runs += 1
        self.killed = False
        env = dict(os.environ)
        env.update({'DNSF_CTL': self.ctlf, 'DNSF_HOME': os.path.join(self.dir, 'home'), 'TZ': 'UTC', 'LC_ALL': 'C',
                    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=86:log_path=%s/san:detect_stack_use_after_return=0'
                                    ':allocator_may_return_null=1:handle_segv=1:handle_abort=1:detect_odr_violation=0:symbolize=1' % self.dir,
                    'UBSAN_OPTIONS': 'print_stacktrace=1:log_path=%s/san' % self.dir})
        env.update(self.env)
        out = os.path.join(self.dir, 'stdout.%d' % self.runs)
        self.outf = open(out, 'wb')
        cmd = [self.exe] + ([] if 'default' in self.env.get('DNSF_KIND', '') else ['-f', os.path.join(self.dir, 'config')]) + self.args
        p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdin=subprocess.DEVNULL, start_new_session=True,
                             stdout=subprocess.PIPE if self.stream == 'pipe' else self.outf, stderr=subprocess.STDOUT)
        self.starter = p.pid
        self.p = p
        self.w.daemons.append(self)
        try:
            if self.stream == 'pipe':
                o, _ = p.communicate(timeout=20)
                self.outf.write(o)
                self.outf.flush()
            else:
                p.wait(20)
        except subprocess.TimeoutExpired:
            self.verdict = 'the starter has not ended, or its output is still held open, after 20 s'
            return
        m = re.search(r'(\d+)\D*$', open(out).read())
        if p.returncode != 0 or not m:
            self.verdict = 'the starter ended with %s and said %r' % (p.returncode, open(out).read()[-300:])
            return
        self.p = Orphan(int(m.group(1)))


def run(c, kind, rnd):
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)     # background processes become our children
    except Exception:
        pass
    w, rng = c.world(), c.rng
    asked = {}

    def handle(srv, q, proto, reply):
        try:
            n = wl.qinfo(q)[1]
        except Exception:
            c.bad('bad-query', 'a server got %r' % q)
            return
        asked[n] = asked.get(n, 0) + 1
        reply(wl.std_answer(q, 3, ttl=86400))
    u = w.upstream('u', handle, tcp=True)
    bg = kind != 'fg'
    noise = rng.choice(['err', 'out', 'both', 'big', 'bin']) if rnd else 'both'
    gb = {'err': 'cat %s >&2', 'out': 'cat %s', 'both': 'cat %s; cat %s >&2', 'big': 'cat %s %s; cat %s %s >&2', 'bin': 'cat %s >&2; cat %s'}[noise]
    blob = {'big': NOISE * 9000, 'bin': (b'\1\0\0\0' * 3 + NOISE + b'\xff' * 16 + b'\0' * 9) * 200}.get(noise, b'# ' + NOISE + b' 6.6.6.6 evil.test\n' * 3)
    script = '#!/bin/sh\nread x\ncat > {DIR}/stdin.got\n%s\necho done >> {DIR}/ran\n' % gb.replace('%s', '{DIR}/blob')
    every = 50
    log = kind in ('log', 'cachefile', 'default') or (kind == 'fg') or (kind == 'many' and rng.random() < 0.5)
    cachefile = kind in ('cachefile', 'nolog', 'default', 'fg') or (kind == 'tcponly' and rng.random() < 0.5)
    conf = ['LogOn %s' % str(log).lower(), 'LogFileFolder {DIR}', 'LogFileThresholdLength 100000000', 'ModulesUpdateInterval %d' % every, 'HostsRetryInterval 1',
            'Hosts file://{DIR}/src', 'HostsDownloadPath {DIR}/saved', 'HostsScript {DIR}/s.sh',
            'DisabledDomain dis.test', 'AppendHosts 10.1.2.3 h.hosts.test', 'AppendHosts tgt.test alias.hosts.test', 'OverrideTTL -1',
            'EnableUDPtoTCP true', 'EnableTCPtoUDP true',
            '%s %s * off%s' % (('TCPGroup', u.addr, ' no') if rng.random() < 0.3 else ('UDPGroup', u.addr, ''))]
    if kind == 'memory':
        conf += ['UseCache true', 'MemoryCache true']
    elif cachefile:
        conf += ['UseCache true', 'MemoryCache false', 'CacheFile {DIR}/cache', 'ReloadCache true', 'CacheSize 204800']
    else:
        conf += ['UseCache %s' % rng.choice(['true', 'false'])]
    tpl = '<html>\n<!-- INSERT HERE -->\n</html>\n'
    if kind == 'stat':
        conf += ['DomainStatistic true', 'DomainStatisticTempletFile {DIR}/tpl', 'StatisticUpdateInterval 20']
    if kind == 'many':
        conf += ['UDPLocal 127.0.0.1:%d' % world.free_port() for _ in range(4)]
    src = lambda v: '\n'.join('10.9.%d.%d s%d.src.test' % (v, i, i) for i in range(20)) + '\n'
    args = ['-d'] if bg else []
    if rng.random() < 0.3:
        args += [rng.choice(['-q', '-D'])]
        rng.shuffle(args)

    class D(Bg):
        stream = rng.choice(['pipe', 'file'])

    # the port is free when it is chosen, but others choose, too
    for attempt in range(3):
        base = world.tempfile.mkdtemp(prefix='dnsf-', dir=w.tmp)
        os.makedirs(base + '/home/.dnsforwarder')
        os.close(os.open(base + '/s.sh', os.O_CREAT | os.O_WRONLY, 0o755))
        if kind == 'default':
            # the prepared default place
            os.rmdir(base + '/home/.dnsforwarder')
        if kind == 'default':
            r = subprocess.run([world.build.daemon('asan'), '-p'], env=dict(os.environ, DNSF_HOME=base + '/home', ASAN_OPTIONS='detect_leaks=0'),
                               cwd=base, capture_output=True, timeout=20)
            if r.returncode or not os.path.isdir(base + '/home/.dnsforwarder'):
                c.bad('not-prepared', '-p ended with %s: %r' % (r.returncode, r.stdout[-300:]))
                return
            os.symlink('../../config', base + '/home/.dnsforwarder/config')
        d = D(w, conf, keep=base, args=args, udp=kind != 'tcponly', env={'DNSF_KIND': kind},
              files={'src': src(0), 's.sh': script.replace('{DIR}', base), 'blob': blob, 'tpl': tpl})
        if d.verdict:
            d.expect_alive = False
            c.bad('start', d.verdict)
            return
        tries = 0
        t0 = time.monotonic()
        ok = False
        while time.monotonic() - t0 < 20 and d.alive() and not ok:
            ok = serving(w, d, kind, tries)
            tries += 1
        if ok:
            break
        d.expect_alive = attempt == 2
        d.kill()
    else:
        c.live('not-serving', 'started with %s the service does not answer\n%s' % (args, log_text(d)))
        return
    c.seen(kind, 'start', d.stream, tuple(args))

    def group_gone():
        """What ends the starter's terminal and group does not end the service."""
        if not bg:
            return True
        if os.getsid(d.p.pid) == os.getsid(0) or os.getpgid(d.p.pid) == d.starter:
            c.bad('session', 'the background process is in session %d, group %d of its starter' % (os.getsid(d.p.pid), os.getpgid(d.p.pid)))
            return False
        try:
            os.killpg(d.starter, signal.SIGHUP)
        except OSError:
            pass
        return True

    num = [0]
    udp, tcp = world.UdpClient(w, d.dst), None

    def ask(n, t, want, proto=None):
        """want(parsed) -> fault or None."""
        nonlocal tcp
        proto = proto or rng.choice(['u', 't'])
        if kind == 'tcponly':
            proto = 't'
        q = dns.query(rng.randrange(65536), n, t)
        l = []
        for _ in range(6):
            if proto == 't' and (tcp is None or tcp.closed or len(tcp.tx) > 20):
                try:
                    tcp = world.TcpClient(w, d.dst)
                except OSError:
                    w.run(None, 0.1)
                    continue
            cl = udp if proto == 'u' else tcp
            cl.rx.clear()
            cl.send(q)
            get = lambda: [m for m in cl.msgs() if m[:2] == q[:2]]
            if w.run(get, 2.0):
                l = get()
                break
        c.ev()
        if not l:
            if d.alive():
                c.live('no-reply', '%s type %d over %s: no reply (%s)\n%s' % (n, t, proto, args, log_text(d)))
            return False
        for m in cl.msgs():
            try:
                g = dns.parse(m)
            except dns.Bad as e:
                c.bad('not-dns', '%s over %s: a client got %r' % (n, proto, m[:200]))
                return False
        e = want(dns.parse(l[0]))
        if e:
            c.bad('wrong-reply', '%s type %d over %s: %s: %s' % (n, t, proto, e, l[0].hex()))
            return False
        c.seen(kind, 'reply', proto, t, n.split('.', 1)[-1])
        return True

    std = lambda n, t: (lambda g: None if [x.rdata for x in g.an] == [wl.rdata_for(n, t, 3)] else 'not what the server said')
    A = lambda ip: (lambda g: None if [x.value for x in g.an] == [ip] else 'not the address due, %s' % ip)

    def traffic(k):
        for _ in range(k):
            num[0] += 1
            ch = rng.choice(['fwd', 'fwd', 'hosts', 'dis', 'alias'])
            if ch == 'fwd':
                n, t = 'n%d.test' % num[0], rng.choice([1, 28, 16])
                ok = ask(n, t, std(n, t))
                logged.append(n)
            elif ch == 'hosts':
                ok = ask('h.hosts.test', 1, A('10.1.2.3'))
            elif ch == 'dis':
                ok = ask('x%d.dis.test' % num[0], 1, lambda g: 'records for a disabled name' if g.an else None)
            else:
                ok = ask('alias.hosts.test', 1, lambda g: None if len(g.an) == 2 and g.an[1].rdata == wl.rdata_for('tgt.test', 1, 3) else 'not the alias')
            if not ok:
                return False
        return True

    def ran():
        try:
            return len(open(d.dir + '/ran').read().split())
        except OSError:
            return 0

    def noise_nowhere():
        for f in sorted(os.listdir(d.dir)):
            p = os.path.join(d.dir, f)
            if not os.path.isfile(p) or f in ('blob', 's.sh') or (f.startswith('stdout') and not bg):
                continue
            b = open(p, 'rb').read()
            c.ev()
            if NOISE in b:
                c.bad('noise-in-file', 'what the script wrote to its standard streams is in %s, at %d' % (f, b.index(NOISE)))
                return False
            if f == 'stdin.got' and b:
                c.bad('script-input', 'the script read %r from its standard input' % b[:200])
                return False
            if f == 'dnsforwarder.log' and (b'\0' in b or not re.match(rb'(\d{4}/\d\d/\d\d \d\d:\d\d:\d\d |\Z)', b)):
                c.bad('log', 'the log is damaged: %r' % b[:200])
                return False
            c.seen(kind, 'file', f.split('.')[0], noise)
        for cl in [udp] + ([tcp] if tcp else []):
            for m in cl.msgs():
                if NOISE in m:
                    c.bad('noise-sent', 'a client got what the script wrote: %r' % m[:200])
                    return False
        return True

    logged = []
    if not traffic(4) or not group_gone():
        return
    version = 0
    for rd in range(8 if c.thorough() else 3):
        # an update, its script, and what comes into force
        version += 1
        n0 = ran()
        d.write('src', src(version))
        end = time.monotonic() + 25
        took = False
        while time.monotonic() < end and d.alive() and not took:
            d.advance(every + 1)
            w.run(None, 0.05)
            w.run(lambda: ran() > n0, 1.0)
            q = dns.query(num[0] & 0xffff, 's3.src.test', 1)
            got = []
            if kind == 'tcponly':
                try:
                    x = world.TcpClient(w, d.dst)
                except OSError:
                    continue
            else:
                x = world.UdpClient(w, d.dst)
            x.send(q)
            w.run(lambda: x.rx, 1.0)
            got = [dns.parse(m) for m in x.msgs()]
            x.close()
            took = any(g.an and g.an[0].value == '10.9.%d.3' % version for g in got)
        c.ev()
        if not d.alive():
            return
        if not took:
            c.live('not-updated', 'update %d never came into force (%s, script noise %s; it ran %d times)\n%s' % (version, args, noise, ran() - n0, log_text(d)))
            return
        c.count('updates')
        if not w.run(lambda: ran() > n0, 10):
            c.live('script-not-run', 'update %d is in force, but the script has not come to its end (%s, noise %s)' % (version, args, noise))
            return
        c.seen(kind, 'update', noise, tuple(args))
        i = rng.randrange(20)
        if not ask('s%d.src.test' % i, 1, A('10.9.%d.%d' % (version, i))) or not traffic(6) or not noise_nowhere():
            return
        if kind == 'stat':
            d.advance(21)
            w.run(None, 0.1)
            rep = [f for f in os.listdir(d.dir) if f.endswith('.html')] + [f for f in os.listdir(d.dir + '/home/.dnsforwarder') if f.endswith('.html')]
            c.count('reports', len(rep))
            if not rep and not w.run(lambda: [f for f in os.listdir(d.dir) + os.listdir(d.dir + '/home/.dnsforwarder') if f.endswith('.html')], 8):
                c.live('no-report', 'no statistics were written (%s): %s' % (args, os.listdir(d.dir)))
                return
        if log:
            w.run(None, 0.05)
            b = log_text(d, None)
            for n in logged[-3:]:
                if n not in b:
                    w.run(None, 1)
                    if n not in log_text(d, None):
                        c.live('not-logged', '%s is not in the log\n%s' % (n, log_text(d)))
                        return
            c.ev()
            c.seen(kind, 'log')
        if cachefile and rd != 1:
            # what was cached is still there after a restart
            keep = []
            for _ in range(5):
                num[0] += 1
                n = 'k%d.test' % num[0]
                if not ask(n, 1, std(n, 1)):
                    return
                keep.append(n)
            w.run(None, 0.1)
            b = {n: asked[n] for n in keep}
            d.kill(rng.choice([signal.SIGKILL, signal.SIGTERM]))
            if tcp:
                tcp.close()
                tcp = None
            d.start()
            if d.verdict:
                c.bad('restart', d.verdict)
                return
            t0 = time.monotonic()
            i = 0
            while time.monotonic() - t0 < 20 and d.alive() and not serving(w, d, kind, 1000 * rd + i):
                i += 1
            for n in keep:
                if not ask(n, 1, lambda g: None if g.an and g.an[0].rdata == wl.rdata_for(n, 1, 3) else 'not what the server said'):
                    return
                if asked[n] != b[n]:
                    c.bad('cache-lost', '%s was cached, and asked of the server again after a restart (%s)' % (n, args))
                    return
            c.count('restarts')
            c.seen(kind, 'restart')
    c.sample({'args': args, 'noise of the script': noise, 'updates': version, 'open at 0-2': std_fds(d)})


def std_fds(d):
    out = []
    for i in range(3):
        for t in os.listdir('/proc/%d/task' % d.p.pid):
            try:
                out.append(os.readlink('/proc/%d/task/%s/fd/%d' % (d.p.pid, t, i)))
                break
            except OSError:
                continue
        else:
            out.append('closed')
    return out


def serving(w, d, kind, i):
    q = dns.query(0x7100 + i % 0xfff, 'p%d.ready.probe' % i, 1)
    try:
        x = world.TcpClient(w, d.dst) if kind == 'tcponly' else world.UdpClient(w, d.dst)
    except OSError:
        w.run(None, 0.1)
        return False
    x.send(q)
    w.run(lambda: x.rx, 0.2)
    ok = bool(x.rx)
    x.close()
    return ok


def log_text(d, limit=1200):
    try:
        s = open(d.dir + '/dnsforwarder.log', encoding='latin-1').read()
    except OSError:
        s = ''
    return s if limit is None else s[-limit:]
