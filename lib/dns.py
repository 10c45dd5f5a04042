"""Independent DNS wire encoder / strict decoder used by the oracles."""
import struct, ipaddress

A, NS, CNAME, SOA, PTR, MX, TXT, AAAA, SRV, OPT, HTTPS, ANY = 1, 2, 5, 6, 12, 15, 16, 28, 33, 41, 65, 255
IN = 1


class Bad(Exception):
    pass


def enc_name(n):
    """n: dotted str (latin-1) or list of label bytes"""
    if isinstance(n, str):
        labels = [l.encode('latin-1') for l in n.split('.')] if n else []
    else:
        labels = n
    out = b''
    for l in labels:
        assert 0 < len(l) < 64
        out += bytes([len(l)]) + l
    return out + b'\0'


def ptr(off):
    return struct.pack('!H', 0xC000 | off)


def question(name, t, k=IN):
    return enc_name(name) + struct.pack('!HH', t, k)


def rr(name, t, ttl, rdata, k=IN):
    nm = name if isinstance(name, bytes) else enc_name(name)
    return nm + struct.pack('!HHIH', t, k, ttl & 0xffffffff, len(rdata)) + rdata


def a4(s):
    return ipaddress.IPv4Address(s).packed


def a6(s):
    return ipaddress.IPv6Address(s).packed


def opt(size=1232, do=False, data=b''):
    return b'\0' + struct.pack('!HHIH', OPT, size, 0x8000 if do else 0, len(data)) + data


def query(qid, name, t, k=IN, rd=True, edns=None, cd=False, ad=False):
    fl = (0x100 if rd else 0) | (0x10 if cd else 0) | (0x20 if ad else 0)
    m = struct.pack('!HHHHHH', qid, fl, 1, 0, 0, 1 if edns else 0) + question(name, t, k)
    if edns:
        m += opt(edns) if isinstance(edns, int) else edns
    return m


def response(q, answers=(), authority=(), additional=(), rcode=0, aa=False, tc=False, flags=None):
    """Response to raw query q; sections are lists of encoded RRs."""
    qid, fl, qd = struct.unpack('!HHH', q[:6])
    end = 12
    for _ in range(qd):
        end = skip_name(q, end) + 4
    f = 0x8080 | (fl & 0x7910) | rcode | (0x400 if aa else 0) | (0x200 if tc else 0)
    if flags is not None:
        f = flags
    return (struct.pack('!HHHHHH', qid, f, qd, len(answers), len(authority), len(additional)) + q[12:end] +
            b''.join(answers) + b''.join(authority) + b''.join(additional))


def skip_name(m, p):
    while True:
        if p >= len(m):
            raise Bad('name past end')
        l = m[p]
        if l == 0:
            return p + 1
        if l & 0xC0 == 0xC0:
            if p + 2 > len(m):
                raise Bad('pointer past end')
            return p + 2
        if l & 0xC0:
            raise Bad('label type')
        p += 1 + l


def read_name(m, p):
    """-> (tuple of labels, end offset)"""
    labels = []
    end = None
    hops = 0
    total = 1
    while True:
        if p >= len(m):
            raise Bad('name past end')
        l = m[p]
        if l == 0:
            if end is None:
                end = p + 1
            return tuple(labels), end
        if l & 0xC0 == 0xC0:
            if p + 2 > len(m):
                raise Bad('pointer past end')
            if end is None:
                end = p + 2
            p = ((l & 0x3F) << 8) | m[p + 1]
            hops += 1
            if hops > 128:
                raise Bad('pointer loop')
            continue
        if l & 0xC0:
            raise Bad('label type')
        if p + 1 + l > len(m):
            raise Bad('label past end')
        labels.append(m[p + 1:p + 1 + l])
        total += 1 + l
        if total > 255:
            raise Bad('name too long')
        p += 1 + l


def name_str(labels):
    return '.'.join(l.decode('latin-1') for l in labels).lower()


class RR:
    __slots__ = ('name', 'type', 'klass', 'ttl', 'rdata', 'value', 'section')

    def __repr__(self):
        return '%s/%s %s ttl=%s %s' % (self.section, self.type, self.name, self.ttl, self.value)


class Msg:
    pass


def parse(m, strict_end=True):
    """Strict parse; raises Bad."""
    if len(m) < 12:
        raise Bad('short header')
    r = Msg()
    r.raw = m
    (r.id, r.flags, qd, an, ns, ar) = struct.unpack('!HHHHHH', m[:12])
    r.qr = r.flags >> 15
    r.rcode = r.flags & 15
    r.tc = bool(r.flags & 0x200)
    r.counts = (qd, an, ns, ar)
    p = 12
    r.questions = []
    for _ in range(qd):
        n, p = read_name(m, p)
        if p + 4 > len(m):
            raise Bad('question past end')
        t, k = struct.unpack('!HH', m[p:p + 4])
        p += 4
        r.questions.append((name_str(n), t, k, n))
    r.rrs = []
    for sec, cnt in (('an', an), ('ns', ns), ('ar', ar)):
        for _ in range(cnt):
            x = RR()
            n, p = read_name(m, p)
            x.name = name_str(n)
            if p + 10 > len(m):
                raise Bad('rr past end')
            x.type, x.klass, x.ttl, dl = struct.unpack('!HHIH', m[p:p + 10])
            p += 10
            if p + dl > len(m):
                raise Bad('rdata past end')
            x.rdata = m[p:p + dl]
            x.section = sec
            x.value = _value(m, p, dl, x.type)
            p += dl
            r.rrs.append(x)
    if strict_end and p != len(m):
        raise Bad('trailing bytes: %d of %d' % (p, len(m)))
    r.end = p
    r.an = [x for x in r.rrs if x.section == 'an']
    r.ns = [x for x in r.rrs if x.section == 'ns']
    r.ar = [x for x in r.rrs if x.section == 'ar']
    r.opt = [x for x in r.ar if x.type == OPT]
    return r


def _value(m, p, dl, t):
    d = m[p:p + dl]
    if t == A:
        if dl != 4:
            raise Bad('A rdlength %d' % dl)
        return str(ipaddress.IPv4Address(d))
    if t == AAAA:
        if dl != 16:
            raise Bad('AAAA rdlength %d' % dl)
        return str(ipaddress.IPv6Address(d))
    if t in (CNAME, NS, PTR):
        n, e = read_name(m, p)
        if e != p + dl:
            raise Bad('name rdlength')
        return name_str(n)
    if t == MX:
        if dl < 3:
            raise Bad('MX rdlength')
        n, e = read_name(m, p + 2)
        if e != p + dl:
            raise Bad('MX rdlength')
        return '%d %s' % (struct.unpack('!H', d[:2])[0], name_str(n))
    if t == TXT:
        q = 0
        while q < dl:
            q += 1 + d[q]
        if q != dl:
            raise Bad('TXT strings')
        return d.hex()
    return d.hex()


def is_wellformed_query(m):
    """One IN question, no answers, parses completely."""
    try:
        r = parse(m)
    except Bad:
        return False
    return r.qr == 0 and r.counts[0] == 1 and r.questions[0][2] == IN
