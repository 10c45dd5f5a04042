"""Single-threaded event loop holding fake clients, fake upstream servers and the daemon under test.

Everything that crosses the daemon's boundary is appended to World.log with one monotonic clock, so every
oracle judges a recorded history of real packets.
"""
import fcntl, heapq, mmap, os, random, re, selectors, shutil, signal, socket, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, dns


class HarnessError(Exception):
    """The test-bed, not the daemon, failed: inconclusive."""


class Stalled(Exception):
    """Expected events kept not coming: the scenario gives up."""


_reserved = None


def free_port(kind=socket.SOCK_DGRAM, host='127.0.0.1'):
    """A port below the ephemeral range, reserved against the other processes of the test-bed until this one ends:
    a daemon's or server's port must never be taken by a client in between."""
    global _reserved
    if _reserved is None or _reserved[0] != os.getpid():
        _reserved = (os.getpid(), open('/tmp/.dnsf-ports', 'a+'), set())
    rng = random.SystemRandom()
    for _ in range(2000):
        p = rng.randrange(20000, 32700)
        if p in _reserved[2]:
            continue
        fam = socket.AF_INET6 if ':' in host else socket.AF_INET
        try:
            fcntl.lockf(_reserved[1], fcntl.LOCK_EX | fcntl.LOCK_NB, 1, p)
        except OSError:
            continue
        u = socket.socket(fam, socket.SOCK_DGRAM)
        t = socket.socket(fam, socket.SOCK_STREAM)
        try:
            u.bind((host, p))
            t.bind((host, p))
            _reserved[2].add(p)
            return p
        except OSError:
            continue
        finally:
            u.close()
            t.close()
    raise HarnessError('no free port')


class Loop:
    def __init__(self):
        self.sel = selectors.DefaultSelector()
        self.timers = []
        self.seq = 0

    def now(self):
        return time.monotonic()

    def after(self, delay, fn, *a):
        self.seq += 1
        ent = [self.now() + delay, self.seq, fn, a]
        heapq.heappush(self.timers, ent)
        return ent

    def reg(self, sock, fn, ev=selectors.EVENT_READ):
        self.sel.register(sock, ev, fn)

    def unreg(self, sock):
        try:
            self.sel.unregister(sock)
        except (KeyError, ValueError):
            pass

    def step(self, timeout):
        now = self.now()
        if self.timers:
            timeout = min(timeout, max(0, self.timers[0][0] - now))
        for key, _ in self.sel.select(timeout):
            key.data(key.fileobj)
        now = self.now()
        while self.timers and self.timers[0][0] <= now:
            _, _, fn, a = heapq.heappop(self.timers)
            if fn is not None:
                fn(*a)

    def run(self, cond, timeout):
        """Run until cond() or timeout seconds; returns cond()'s truth."""
        end = self.now() + timeout
        while True:
            if cond is not None and cond():
                return True
            left = end - self.now()
            if left <= 0:
                return bool(cond and cond())
            self.step(min(left, 0.05))


class Upstream:
    """Fake DNS server on UDP and/or TCP.

    handler(srv, query_bytes, proto, reply) with reply(bytes, delay=0, chunks=None, close=False, raw=False).
    """

    def __init__(self, world, name, handler, udp=True, tcp=False, host='127.0.0.1', port=None):
        self.w, self.name, self.handler, self.host = world, name, handler, host
        self.port = port or free_port(host=host)
        self.log = []       # (t, proto, query bytes)
        self.conns = set()
        self.accepted = 0
        self.accept = True
        fam = socket.AF_INET6 if ':' in host else socket.AF_INET
        self.usock = self.tsock = None
        if udp:
            self.usock = socket.socket(fam, socket.SOCK_DGRAM)
            self.usock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
            self.usock.bind((host, self.port))
            self.usock.setblocking(False)
            world.loop.reg(self.usock, self._on_udp)
        if tcp:
            self.tsock = socket.socket(fam, socket.SOCK_STREAM)
            self.tsock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.tsock.bind((host, self.port))
            self.tsock.listen(128)
            self.tsock.setblocking(False)
            world.loop.reg(self.tsock, self._on_accept)

    @property
    def addr(self):
        return ('[%s]:%d' if ':' in self.host else '%s:%d') % (self.host, self.port)

    def _on_udp(self, s):
        for _ in range(64):
            try:
                d, a = s.recvfrom(65535)
            except (BlockingIOError, ConnectionRefusedError):
                return
            self.log.append((self.w.loop.now(), 'udp', d))

            def reply(data, delay=0.0, **kw):
                if delay > 0:
                    self.w.loop.after(delay, self._usend, data, a)
                else:
                    self._usend(data, a)
            self.handler(self, d, 'udp', reply)

    def _usend(self, data, a):
        if self.usock is not None:
            try:
                self.usock.sendto(data, a)
            except OSError:
                pass

    def _on_accept(self, s):
        try:
            c, _ = s.accept()
        except OSError:
            return
        self.accepted += 1
        if not self.accept:
            c.close()
            return
        c.setblocking(False)
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        st = {'buf': b'', 'n': 0}
        self.conns.add(c)
        self.w.loop.reg(c, lambda x: self._on_conn(x, st))

    def _on_conn(self, c, st):
        try:
            d = c.recv(65535)
        except BlockingIOError:
            return
        except OSError:
            d = b''
        if not d:
            self.close_conn(c)
            return
        st['buf'] += d
        self._frames(c, st)

    def _frames(self, c, st):
        while len(st['buf']) >= 2:
            n = struct.unpack('!H', st['buf'][:2])[0]
            if len(st['buf']) < 2 + n:
                break
            q = st['buf'][2:2 + n]
            st['buf'] = st['buf'][2 + n:]
            st['n'] += 1
            self.log.append((self.w.loop.now(), 'tcp', q))

            def reply(data, delay=0.0, chunks=None, close=False, raw=False, gap=0.004):
                frame = data if raw else struct.pack('!H', len(data)) + data
                parts = []
                if chunks:
                    p = 0
                    for x in chunks:
                        if p >= len(frame):
                            break
                        parts.append(frame[p:p + x])
                        p += x
                    if p < len(frame):
                        parts.append(frame[p:])
                else:
                    parts = [frame]
                t = delay
                for part in parts:
                    if t > 0:
                        self.w.loop.after(t, self._tsend, c, part)
                    else:
                        self._tsend(c, part)
                    t += gap
                if close:
                    self.w.loop.after(t, self.close_conn, c)
            reply.conn = c
            reply.nth = st['n']
            self.handler(self, q, 'tcp', reply)

    def _tsend(self, c, data):
        if c not in self.conns:
            return
        try:
            c.setblocking(True)
            c.settimeout(5)
            c.sendall(data)
            c.setblocking(False)
        except OSError:
            self.close_conn(c)

    def close_conn(self, c):
        if c in self.conns:
            self.conns.discard(c)
            self.w.loop.unreg(c)
            c.close()

    def close(self):
        for c in list(self.conns):
            self.close_conn(c)
        for s in (self.usock, self.tsock):
            if s is not None:
                self.w.loop.unreg(s)
                s.close()
        self.usock = self.tsock = None


class Socks5(Upstream):
    """SOCKS5 proxy that routes CONNECT requests to the handlers of known upstreams."""

    def __init__(self, world, name, targets, **kw):
        self.targets = targets          # {(host, port): Upstream}
        self.requests = []
        self.split = kw.pop('split', False)
        self.reply_atyp = kw.pop('reply_atyp', 1)
        self.refuse = False
        super().__init__(world, name, None, udp=False, tcp=True, **kw)

    def _on_conn(self, c, st):
        try:
            d = c.recv(65535)
        except BlockingIOError:
            return
        except OSError:
            d = b''
        if not d:
            self.close_conn(c)
            return
        st['buf'] += d
        while True:
            ph = st.setdefault('ph', 0)
            b = st['buf']
            if ph == 0:
                if len(b) < 2 or len(b) < 2 + b[1]:
                    return
                st['greet'] = b[:2 + b[1]]
                st['buf'] = b[2 + b[1]:]
                st['ph'] = 1
                self._tsend(c, b'\x05\x00')
            elif ph == 1:
                if len(b) < 5:
                    return
                if b[3] == 3:
                    n = b[4]
                    if len(b) < 7 + n:
                        return
                    host = b[5:5 + n].decode('latin-1')
                    port = struct.unpack('!H', b[5 + n:7 + n])[0]
                    used = 7 + n
                elif b[3] == 1:
                    if len(b) < 10:
                        return
                    host = socket.inet_ntoa(b[4:8])
                    port = struct.unpack('!H', b[8:10])[0]
                    used = 10
                else:
                    if len(b) < 22:
                        return
                    host = socket.inet_ntop(socket.AF_INET6, b[4:20])
                    port = struct.unpack('!H', b[20:22])[0]
                    used = 22
                st['buf'] = b[used:]
                st['ph'] = 2
                st['dst'] = (host, port)
                self.requests.append((b[:4], host, port))
                if self.refuse:
                    self._tsend(c, b'\x05\x05\x00\x01' + b'\0' * 6)
                    self.close_conn(c)
                    return
                if self.reply_atyp == 3:
                    rep = b'\x05\x00\x00\x03\x09localhost' + b'\0\0'
                elif self.reply_atyp == 4:
                    rep = b'\x05\x00\x00\x04' + b'\0' * 18
                else:
                    rep = b'\x05\x00\x00\x01' + b'\0' * 6
                self._tsend(c, rep)
            else:
                tgt = self.targets.get(st['dst'])
                if tgt is None:
                    self.close_conn(c)
                    return
                tgt.conns.add(c)
                Upstream._frames(tgt, c, st)
                return


class UdpClient:
    def __init__(self, world, dst, src='127.0.0.1'):
        self.w, self.dst = world, dst
        fam = socket.AF_INET6 if ':' in dst[0] else socket.AF_INET
        if fam == socket.AF_INET6 and src == '127.0.0.1':
            src = '::1'
        self.s = socket.socket(fam, socket.SOCK_DGRAM)
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
        self.s.bind((src, 0))
        self.s.setblocking(False)
        self.addr = self.s.getsockname()
        self.rx = []        # (t, bytes, from)
        self.tx = []
        self.cb = None
        world.loop.reg(self.s, self._on)

    def _on(self, s):
        for _ in range(64):
            try:
                d, a = s.recvfrom(65535)
            except (BlockingIOError, ConnectionRefusedError):
                return
            if a[1] != self.dst[1]:
                continue        # not from the daemon
            self.rx.append((self.w.loop.now(), d, a))
            if self.cb:
                self.cb(self, d)

    def send(self, data):
        self.tx.append((self.w.loop.now(), data))
        try:
            self.s.sendto(data, self.dst)
        except BlockingIOError:
            time.sleep(0.002)
            self.s.sendto(data, self.dst)
        except ConnectionRefusedError:
            pass

    def msgs(self):
        return [d for _, d, _ in self.rx]

    def close(self):
        self.w.loop.unreg(self.s)
        self.s.close()


class TcpClient:
    def __init__(self, world, dst):
        self.w, self.dst = world, dst
        fam = socket.AF_INET6 if ':' in dst[0] else socket.AF_INET
        self.s = socket.socket(fam, socket.SOCK_STREAM)
        self.s.settimeout(5)
        self.s.connect(dst)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.setblocking(False)
        self.buf = b''
        self.rx = []
        self.tx = []
        self.closed = False
        self.cb = None
        world.loop.reg(self.s, self._on)

    def _on(self, s):
        try:
            d = s.recv(65535)
        except BlockingIOError:
            return
        except OSError:
            d = b''
        if not d:
            self.closed = True
            self.w.loop.unreg(s)
            return
        self.buf += d
        while len(self.buf) >= 2:
            n = struct.unpack('!H', self.buf[:2])[0]
            if len(self.buf) < 2 + n:
                break
            m = self.buf[2:2 + n]
            self.buf = self.buf[2 + n:]
            self.rx.append((self.w.loop.now(), m, None))
            if self.cb:
                self.cb(self, m)

    def send(self, data, chunks=None, gap=0.004):
        self.tx.append((self.w.loop.now(), data))
        self.send_raw(struct.pack('!H', len(data)) + data, chunks, gap)

    def send_raw(self, frame, chunks=None, gap=0.004):
        if not chunks:
            self._put(frame)
            return
        p, t = 0, 0.0
        chunks = list(chunks) + [len(frame)]
        for x in chunks:
            if p >= len(frame):
                break
            if t:
                self.w.loop.after(t, self._put, frame[p:p + x])
            else:
                self._put(frame[p:p + x])
            p += x
            t += gap

    def _put(self, b):
        if self.closed:
            return
        try:
            self.s.setblocking(True)
            self.s.settimeout(5)
            self.s.sendall(b)
            self.s.setblocking(False)
        except OSError:
            pass

    def msgs(self):
        return [d for _, d, _ in self.rx]

    def close(self, rst=False):
        self.w.loop.unreg(self.s)
        if rst:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        self.s.close()
        self.closed = True


class Daemon:
    def __init__(self, world, config, variant=None, files=None, keep=None, args=(), udp=True, tcp=True,
                 host='127.0.0.1', env=None):
        """config: list of lines or callable(dir) -> lines.  {DIR} is replaced by the scratch directory."""
        self.w = world
        variant = variant or world.variant
        self.exe = build.daemon(variant)
        self.variant = variant
        self.dir = keep or tempfile.mkdtemp(prefix='dnsf-', dir=world.tmp)
        self.host = host
        self.port = free_port(host=host)
        os.makedirs(os.path.join(self.dir, 'home', '.dnsforwarder'), exist_ok=True)
        for n, c in (files or {}).items():
            with open(os.path.join(self.dir, n), 'wb') as f:
                f.write(c if isinstance(c, bytes) else c.encode('latin-1'))
        b = ('[%s]:%d' if ':' in host else '%s:%d') % (host, self.port)
        lines = []
        if udp:
            lines.append('UDPLocal ' + b)
        if tcp:
            lines.append('TCPLocal ' + b)
        lines += config
        self.config = '\n'.join(lines).replace('{DIR}', self.dir) + '\n'
        with open(os.path.join(self.dir, 'config'), 'w', encoding='latin-1') as f:
            f.write(self.config)
        self.ctlf = os.path.join(self.dir, 'ctl')
        with open(self.ctlf, 'wb') as f:
            f.write(b'\0' * 4096)
        self._m = open(self.ctlf, 'r+b')
        self.ctl = mmap.mmap(self._m.fileno(), 4096)
        self.args = list(args)
        self.env = env or {}
        self.p = None
        self.runs = 0
        self.expect_alive = True
        self.killed = False
        self.start()

    def start(self):
        self.runs += 1
        self.killed = False
        env = dict(os.environ)
        env.update({
            'DNSF_CTL': self.ctlf, 'DNSF_HOME': os.path.join(self.dir, 'home'), 'TZ': 'UTC', 'LC_ALL': 'C',
            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=86:log_path=%s/san:detect_stack_use_after_return=0'
                            ':allocator_may_return_null=1:handle_segv=1:handle_abort=1:detect_odr_violation=0'
                            ':symbolize=1' % self.dir,
            'MSAN_OPTIONS': 'intercept_send=0:exit_code=86:log_path=%s/san' % self.dir,
            'UBSAN_OPTIONS': 'print_stacktrace=1:log_path=%s/san' % self.dir,
            'TSAN_OPTIONS': 'exitcode=0:halt_on_error=0:log_path=%s/tsan:history_size=4:second_deadlock_stack=1'
                            ':report_signal_unsafe=0:suppressions=%s' % (
                                self.dir, os.path.join(build.HARN, 'tsan.supp')),
        })
        if self.variant == 'tsan':
            del env['UBSAN_OPTIONS'], env['ASAN_OPTIONS']
        env.update(self.env)
        self.outf = open(os.path.join(self.dir, 'stdout.%d' % self.runs), 'wb')
        cmd = [self.exe, '-f', os.path.join(self.dir, 'config')] + self.args
        if self.variant == 'tsan':
            cmd = ['setarch', '-R'] + cmd if shutil.which('setarch') and _need_setarch() else cmd
        self.p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=self.outf,
                                  stderr=subprocess.STDOUT, start_new_session=True)
        self.w.daemons.append(self)

    # -- control --
    def _get(self, i):
        return struct.unpack('<q', self.ctl[8 * i:8 * i + 8])[0]

    def _set(self, i, v):
        self.ctl[8 * i:8 * i + 8] = struct.pack('<q', v)

    def advance(self, seconds):
        self._set(0, self._get(0) + int(seconds * 1e9))

    def offset(self):
        return self._get(0) / 1e9

    def vtime(self):
        return time.time() + self.offset()

    def noise(self, us):
        self._set(1, us)

    def fault(self, mask):
        """1: partial sends on connections the daemon opened; 2: partial receives."""
        self._set(10, self.port)
        self._set(2, mask)

    @property
    def dst(self):
        return (self.host, self.port)

    def alive(self):
        return self.p is not None and self.p.poll() is None

    def stdout(self):
        out = b''
        for i in range(1, self.runs + 1):
            f = os.path.join(self.dir, 'stdout.%d' % i)
            if os.path.exists(f):
                out += open(f, 'rb').read()
        return out.decode('latin-1')

    def san_reports(self, prefix='san'):
        out = []
        for f in sorted(os.listdir(self.dir)):
            if f.startswith(prefix + '.'):
                t = open(os.path.join(self.dir, f), 'rb').read().decode('latin-1')
                if t.strip():
                    out.append(t)
        return out

    def fds(self):
        """Number of open descriptors (the main thread of the service exits, so ask the others)."""
        try:
            ts = os.listdir('/proc/%d/task' % self.p.pid)
        except OSError:
            return -1
        n = -1
        for t in ts:
            try:
                n = max(n, len(os.listdir('/proc/%d/task/%s/fd' % (self.p.pid, t))))
            except OSError:
                pass
            if n > 0:
                break
        return n

    def threads(self):
        try:
            return len(os.listdir('/proc/%d/task' % self.p.pid))
        except OSError:
            return -1

    def heap(self):
        """Bytes allocated on the heap, or -1."""
        self._set(7, 1)
        self.w.loop.run(lambda: self._get(7) == 0, 3)
        return self._get(8) if self._get(7) == 0 else -1

    def rss_kb(self):
        try:
            for l in open('/proc/%d/status' % self.p.pid):
                if l.startswith('VmRSS'):
                    return int(l.split()[1])
        except OSError:
            pass
        return -1

    def cpu_ticks(self):
        f = open('/proc/%d/stat' % self.p.pid).read().rsplit(')', 1)[1].split()
        return int(f[11]) + int(f[12])

    def write(self, name, content):
        p = os.path.join(self.dir, name)
        with open(p + '.new', 'wb') as f:
            f.write(content if isinstance(content, bytes) else content.encode('latin-1'))
        os.rename(p + '.new', p)

    def kill(self, sig=signal.SIGKILL):
        if self.p is not None and self.p.poll() is None:
            self.killed = True
            try:
                os.killpg(self.p.pid, sig)
            except OSError:
                pass
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()
        if self.outf:
            self.outf.close()

    def restart(self):
        self.kill()
        self.start()

    def ready(self, timeout=20, name='ready.probe', t=1):
        """Probe until something is answered. Uses a name the upstreams must answer."""
        c = UdpClient(self.w, self.dst)
        end = time.monotonic() + timeout
        i = 0
        try:
            while time.monotonic() < end:
                if not self.alive():
                    return False
                i += 1
                c.send(dns.query((0x7000 + i) & 0xffff, '%d-%d.%s' % (os.getpid(), i, name), t))
                if self.w.loop.run(lambda: c.rx, 0.15):
                    return True
            return False
        finally:
            c.close()


_setarch = None


def _need_setarch():
    global _setarch
    if _setarch is None:
        r = subprocess.run(['setarch', '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        _setarch = r.returncode == 0
    return _setarch


class World:
    def __init__(self, seed=0):
        self.loop = Loop()
        self.rng = random.Random(seed)
        base = os.environ.get('TMPDIR') or '/tmp'
        self.tmp = tempfile.mkdtemp(prefix='dnsfw-', dir=base)
        self.daemons = []
        self.variant = 'asan'
        self.servers = []
        self.timeouts = 0

    def upstream(self, name, handler, **kw):
        u = Upstream(self, name, handler, **kw)
        self.servers.append(u)
        return u

    def socks(self, name, targets, **kw):
        u = Socks5(self, name, targets, **kw)
        self.servers.append(u)
        return u

    def daemon(self, config, **kw):
        return Daemon(self, config, **kw)

    def client(self, d, **kw):
        return UdpClient(self, d.dst, **kw)

    def tclient(self, d):
        return TcpClient(self, d.dst)

    def run(self, cond=None, timeout=1.0):
        r = self.loop.run(cond, timeout)
        if cond is not None and not r and timeout >= 5:
            self.timeouts += 1
            for d in self.daemons:
                if d.expect_alive and not d.killed and not d.alive():
                    raise Stalled('the daemon died')
            if self.timeouts >= 4:
                raise Stalled('expected replies did not arrive in %d waits of %g s' % (self.timeouts, timeout))
        return r

    def close(self):
        for d in self.daemons:
            d.kill()
        for s in self.servers:
            s.close()
        for key in list(self.loop.sel.get_map().values()):
            try:
                key.fileobj.close()
            except Exception:
                pass
        self.loop.sel.close()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
