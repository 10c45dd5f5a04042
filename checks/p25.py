"""P25: nothing decided or sent comes from memory that was never written."""
import importlib

LEVEL = 'exploration'
VARIANTS = ['msan']
RULE = ('A case is a step (query, hostile message, reply, reload) of the workloads of the other checks, run against the MemorySanitizer build, in '
        'which every branch, address and system call argument that depends on a byte never written, and every such byte in a message to the '
        'network, is reported; what a datagram or a read left unfilled of its buffer counts as never written, whatever was there before. '
        'Non-trivial: distinct as the borrowed workload says.')
ASSUMPTIONS = ['built without libcurl, which is not instrumented', 'what the daemon sends to its own sockets may have unused fields']
# module, scenarios left out
WORK = [('p01', ()), ('p02', ()), ('p03', ()), ('p04', ()), ('p05', ()), ('p06', ()), ('p07', ()), ('p08', ()), ('p09', ()), ('p10', ()), ('p11', ()),
        ('p13', ()), ('p14', ()), ('p15', ()), ('p18', ()), ('p19', ()), ('p20', ()), ('p22', ()), ('p23', ()), ('p26', ())]


def scenarios(tier, seed):
    out = []
    for m, skip in WORK:
        for name, fn, kw in importlib.import_module(m).scenarios(tier, seed):
            # a quick run takes the first of each kind
            if not any(s in name for s in skip) and (tier == 'thorough' or not name.rsplit('-', 1)[-1].isdigit() or int(name.rsplit('-', 1)[-1]) < (6 if m == 'p20' else 1)):
                out.append(('%s-%s' % (m, name), borrowed, {'mod': m, 'fn': fn.__name__, 'kw': kw}))
    return out


def borrowed(c, mod, fn, kw):
    c.variant = 'msan'
    c.only = 'sanitizer'
    getattr(importlib.import_module(mod), fn)(c, **kw)
