"""Small self-contained test-bed for one demonstration: scripted servers, a daemon, clients."""
import os, shutil, socket, struct, subprocess, sys, tempfile, threading, time

BIN = os.environ.get('DEMO_BIN', os.path.join(os.getcwd(), '_build', 'dnsforwarder'))
A, NS, CNAME, PTR, MX, TXT, AAAA, SRV, HTTPS = 1, 2, 5, 12, 15, 16, 28, 33, 65


def name(n):
    return b''.join(bytes([len(l)]) + l.encode('latin1') for l in n.split('.') if l) + b'\0'


def query(i, n, t, extra=b''):
    return struct.pack('!6H', i, 0x100, 1, 0, 0, 1 if extra else 0) + name(n) + struct.pack('!HH', t, 1) + extra


def rd_name(m, p):
    out, end, hops = [], None, 0
    while True:
        b = m[p]
        if b == 0:
            p += 1
            break
        if b & 0xc0 == 0xc0:
            end = end or p + 2
            p = (b & 0x3f) << 8 | m[p + 1]
            hops += 1
            if hops > 50:
                raise ValueError
            continue
        out.append(m[p + 1:p + 1 + b].decode('latin1'))
        p += 1 + b
    return '.'.join(out), end or p


def question(m):
    n, p = rd_name(m, 12)
    return n, struct.unpack('!H', m[p:p + 2])[0], p + 4


def rr(t, ttl, rdata, owner=b'\xc0\x0c'):
    return owner + struct.pack('!HHIH', t, 1, ttl, len(rdata)) + rdata


def response(q, an=(), au=(), ad=(), rcode=0):
    n, t, e = question(q)
    return q[:2] + struct.pack('!5H', 0x8180 | rcode, 1, len(an), len(au), len(ad)) + q[12:e] + b''.join(an) + b''.join(au) + b''.join(ad)


def records(m):
    """[(owner, type, ttl, rdata bytes or name)] of the answer section"""
    n, t, p = question(m)
    out = []
    for _ in range(struct.unpack('!H', m[6:8])[0]):
        o, p = rd_name(m, p)
        t, k, ttl, ln = struct.unpack('!HHIH', m[p:p + 10])
        p += 10
        out.append((o.lower(), t, ttl, rd_name(m, p)[0] if t in (CNAME, NS, PTR) else m[p:p + ln]))
        p += ln
    return out


class Server:
    """handler(server, query bytes, proto) -> list of replies (bytes); udp and tcp on one port"""
    def __init__(self, handler, tcp=True):
        self.h, self.seen = handler, []
        while True:
            self.u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.u.bind(('127.0.0.1', 0))
            self.port = self.u.getsockname()[1]
            self.t = socket.socket()
            try:
                self.t.bind(('127.0.0.1', self.port))
                break
            except OSError:
                continue
        self.t.listen(64)
        self.addr = '127.0.0.1:%d' % self.port
        threading.Thread(target=self.udp, daemon=True).start()
        if tcp:
            threading.Thread(target=self.tcp, daemon=True).start()

    def udp(self):
        while True:
            q, a = self.u.recvfrom(65535)
            try:
                self.seen.append(question(q)[:2])
                for m in self.h(self, q, 'udp') or ():
                    if isinstance(m, float):
                        time.sleep(m)
                    else:
                        self.u.sendto(m, a)
            except Exception as e:
                print('server:', repr(e))

    def tcp(self):
        while True:
            c, a = self.t.accept()
            threading.Thread(target=self.conn, args=(c,), daemon=True).start()

    def conn(self, c):
        f = c.makefile('rb')
        while True:
            h = f.read(2)
            if len(h) < 2:
                return
            q = f.read(struct.unpack('!H', h)[0])
            self.seen.append(question(q)[:2])
            for m in self.h(self, q, 'tcp') or ():
                if isinstance(m, float):
                    time.sleep(m)
                else:
                    c.sendall(struct.pack('!H', len(m)) + m)


class Daemon:
    def __init__(self, conf, files=None, dir=None, env=None):
        self.dir = dir or tempfile.mkdtemp(prefix='demo')
        self.own = dir is None
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.bind(('127.0.0.1', 0))
        self.port = s.getsockname()[1]
        s.close()
        for n, c in (files or {}).items():
            with open(os.path.join(self.dir, n), 'wb' if isinstance(c, bytes) else 'w') as f:
                f.write(c)
        self.conf = os.path.join(self.dir, 'conf')
        lines = ['LogOn false', 'UDPLocal 127.0.0.1:%d' % self.port, 'TCPLocal 127.0.0.1:%d' % self.port] + list(conf)
        with open(self.conf, 'w') as f:
            f.write('\n'.join(l.replace('{DIR}', self.dir) for l in lines) + '\n')
        self.env = dict(os.environ, HOME=self.dir, **(env or {}))
        self.start()

    def start(self):
        self.out = open(os.path.join(self.dir, 'out'), 'ab')
        self.p = subprocess.Popen([BIN, '-f', self.conf], cwd=self.dir, env=self.env, stdin=subprocess.DEVNULL,
                                  stdout=self.out, stderr=self.out)
        time.sleep(0.6)

    def ask(self, n, t=A, timeout=3.0, qid=None, tries=1, raw=None, extra=b''):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.settimeout(timeout)
        q = raw or query(qid if qid is not None else struct.unpack('!H', os.urandom(2))[0], n, t, extra)
        for _ in range(tries):
            try:
                s.sendto(q, ('127.0.0.1', self.port))
                while True:
                    m = s.recv(65535)
                    if m[:2] == q[:2]:
                        s.close()
                        return m
            except OSError:
                pass
        s.close()
        return None

    def tcp(self):
        s = socket.create_connection(('127.0.0.1', self.port), 3)
        s.settimeout(4)
        return s

    def alive(self):
        return self.p.poll() is None

    def kill(self):
        if self.alive():
            self.p.kill()
        self.p.wait()

    def close(self):
        self.kill()
        if self.own:
            shutil.rmtree(self.dir, ignore_errors=True)


def recv_msg(s):
    b = b''
    while len(b) < 2 or len(b) < 2 + struct.unpack('!H', b[:2])[0]:
        x = s.recv(65535)
        if not x:
            return None
        b += x
    return b[2:]


def run(fn):
    """fn(list of daemons to close) -> error text or None"""
    made = []
    err = 'did not finish'
    try:
        err = fn(made)
    finally:
        for d in made:
            d.close()
        if err:
            print('FAIL:', err)
        sys.stdout.flush()
        os._exit(1 if err else 0)
