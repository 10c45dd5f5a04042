"""Workload pieces and oracles shared by the checks."""
import hashlib, os, struct, time
import dns

TYPES = [dns.A, dns.AAAA, dns.TXT, dns.MX, dns.NS, dns.PTR, dns.CNAME, dns.HTTPS, dns.SRV, dns.SOA, 257]


def h(*a, n=16):
    return hashlib.sha256(repr(a).encode()).digest()[:n]


def rdata_for(name, t, salt=0):
    """RDATA unique to (lower-case name, type, salt)."""
    d = h(name.lower(), t, salt, n=20)
    if t == dns.A:
        # stays out of 0/8, 127/8 and multicast
        return bytes([20 + d[0] % 80]) + d[1:4]
    if t == dns.AAAA:
        return b'\x20\x01\x0d\xb8' + d[:12]
    if t in (dns.CNAME, dns.NS, dns.PTR):
        return dns.enc_name('t%s.target.example' % d[:6].hex())
    if t == dns.MX:
        return d[:2] + dns.enc_name('m%s.mx.example' % d[2:8].hex())
    if t == dns.TXT:
        s = d.hex().encode()
        return bytes([len(s)]) + s
    if t == dns.HTTPS:
        return struct.pack('!H', 1) + b'\0' + struct.pack('!HH', 4, 4) + d[:4]
    if t == dns.SRV:
        return d[:6] + dns.enc_name('s%s.srv.example' % d[6:12].hex())
    if t == dns.SOA:
        return dns.enc_name('ns.x') + dns.enc_name('m.x') + d[:20]
    return d


def qinfo(q):
    """(labels, lower name, type, class, end of question) of a raw message's first question."""
    labels, p = dns.read_name(q, 12)
    t, k = struct.unpack('!HH', q[p:p + 4])
    return labels, dns.name_str(labels), t, k, p + 4


def std_answer(q, salt=0, ttl=300, extra=0):
    """A plain correct answer: rdata_for with 1+extra records, owner compressed to the question."""
    labels, n, t, k, e = qinfo(q)
    rrs = [dns.rr(dns.ptr(12), t, ttl, rdata_for(n, t, (salt, i) if i else salt)) for i in range(1 + extra)]
    has_opt = False
    try:
        has_opt = bool(dns.parse(q).opt)
    except dns.Bad:
        pass
    return dns.response(q, rrs, additional=[dns.opt(1232)] if has_opt else [])


def std_handler(salt=0, ttl=300, delay=None):
    def handle(srv, q, proto, reply):
        try:
            a = std_answer(q, salt, ttl)
        except (dns.Bad, struct.error, IndexError):
            return
        reply(a, delay=delay() if delay else 0.0)
    return handle


class Ledger:
    """Per-client record of queries and the oracle matching every received message to one of them."""

    def __init__(self, case, content=None):
        self.c = case
        self.content = content      # content(name, type, Msg) -> error text or None
        self.open = {}              # client -> {(id, labels, type, klass): [sent times]}
        self.done = 0
        self.sent = 0
        self.waiting = 0
        self.dups_ok = False

    def send(self, cl, q, how=None):
        labels, n, t, k, e = qinfo(q)
        key = (struct.unpack('!H', q[:2])[0], n, t, k)
        if cl not in self.open:
            self.open[cl] = {}
            cl.cb = self.on_msg
        self.open[cl].setdefault(key, []).append(q)
        self.sent += 1
        self.waiting += 1
        if how:
            how(q)
        else:
            cl.send(q)
        return key

    def on_msg(self, cl, m):
        try:
            r = dns.parse(m)
        except dns.Bad as e:
            self.c.bad('malformed-reply', 'client got a message that does not parse: %s: %s' % (e, m.hex()))
            return
        if not r.qr or len(r.questions) != 1:
            self.c.bad('not-a-reply', 'client got %s' % m.hex())
            return
        n, t, k, labels = r.questions[0]
        key = (r.id, n, t, k)
        lst = self.open[cl].get(key)
        if not lst:
            near = [x for x in self.open[cl] if x[0] == r.id]
            self.c.bad('foreign-reply', 'client got a reply it has no outstanding query for: id=%d %s type %d '
                       '(same-id queries outstanding or done: %r)' % (r.id, n, t, near[:4]))
            return
        if lst[0] is None:
            if all(x is None for x in lst):
                self.c.bad('duplicate-reply', 'second reply to one query: id=%d %s type %d' % (r.id, n, t))
                return
        for i, x in enumerate(lst):
            if x is not None:
                lst[i] = None
                break
        self.done += 1
        self.waiting -= 1
        if self.content:
            e = self.content(n, t, r)
            if e:
                self.c.bad('wrong-content', 'reply to id=%d %s type %d: %s; message %s' % (r.id, n, t, e, m.hex()))

    def missing(self):
        out = []
        for cl, keys in self.open.items():
            for key, lst in keys.items():
                k = sum(1 for x in lst if x is not None)
                if k:
                    out.append((cl, key, k))
        return out

    def retransmit(self):
        for cl, keys in self.open.items():
            for key, lst in keys.items():
                for x in lst:
                    if x is not None:
                        cl.send(x)


def std_content(salts=(0,), types=None):
    """Answers must be exactly one RR carrying the RDATA the upstream gives for this (name, type)."""
    def f(n, t, r):
        if r.rcode:
            return 'rcode %d' % r.rcode
        got = [(x.name, x.type, x.value) for x in r.an]
        ok = []
        for s in salts:
            rd = rdata_for(n, t, s)
            ok.append([(n, t, dns._value(rd, 0, len(rd), t))])
        if got not in ok:
            return 'answer section %r, upstream said %r' % (got, ok)
        return None
    return f


def wait(w, cond, timeout=8.0):
    return w.run(cond, timeout)
