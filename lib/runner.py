"""Check framework: runs a property's scenarios, applies the known-findings file, writes evidence.

Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 inconclusive (test-bed failure).
A property module (checks/<id>.py, lower case) defines
    LEVEL, RULE, ASSUMPTIONS
    scenarios(tier, seed) -> list of (name, function, kwargs)
Each function gets a Case and drives real daemons; oracles call case.bad / case.live.
"""
import importlib, json, multiprocessing, os, random, re, sys, time, traceback, fnmatch, resource, signal

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
sys.path.insert(0, LIB)
sys.path.insert(0, os.path.join(VERIF, 'checks'))
import build, dns, world

FINDINGS = os.path.join(VERIF, 'known_findings.txt')
WORKERS = int(os.environ.get('DNSF_WORKERS', '7'))


START = time.monotonic()
LIMIT = {'quick': 180, 'thorough': 3000}         # one scenario
DEADLINE = {'quick': 700, 'thorough': 36000}     # the whole run, reruns included; normal quick runs take a minute


class Late(BaseException):
    """Scenario time is up (not an Exception: no handler in a scenario may swallow it)."""


class Abort(Exception):
    """The scenario recorded what it saw and cannot go on."""


class Case:
    def __init__(self, prop, name, seed, tier):
        self.prop, self.name, self.seed, self.tier = prop, name, seed, tier
        self.rng = random.Random('%s/%s/%d' % (prop, name, seed))
        self.evaluations = 0
        self.distinct = set()
        self.counts = {}
        self.samples = []
        self.violations = []        # (kind, key, detail)
        self.worlds = []
        self.variant = 'asan'       # build of the daemons
        self.only = None            # prefix of the violations wanted of a borrowed workload

    def thorough(self):
        return self.tier == 'thorough'

    def world(self):
        w = world.World(self.rng.getrandbits(48))
        w.variant = self.variant
        self.worlds.append(w)
        return w

    def ev(self, n=1):
        self.evaluations += n

    def seen(self, *key):
        self.distinct.add(hash(key))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def bad(self, key, detail):
        """A wrong thing was observed."""
        if self.only and not key.startswith(self.only):
            self.count('of_other_properties')
        elif len(self.violations) < 20:
            self.violations.append(('safety', key, detail))

    def live(self, key, detail):
        """An expected thing was not observed in time: confirmed by a rerun before it is reported."""
        if self.only:
            self.count('of_other_properties')
        elif len(self.violations) < 20:
            self.violations.append(('live', key, detail))

    def start(self, w, conf, probe='ready.probe', ready=True, **kw):
        """Start a daemon; it must answer a plain query."""
        d = w.daemon(conf, **kw)
        if ready and not d.ready(name=probe):
            for _ in range(2):
                # another process may have taken the port
                d.expect_alive = False
                d.kill()
                d = w.daemon(conf, **kw)
                if d.ready(name=probe):
                    return d
            self.live('not-serving', 'the daemon does not answer a plain query after start-up:\n' + d.stdout()[-1500:])
            raise Abort()
        return d

    def alive_check(self, d, what, name='ready.probe', timeout=20):
        """The daemon must be running and answering."""
        if not d.alive():
            return False        # check_daemons reports it
        if not d.ready(timeout, name):
            self.live('stopped-serving', 'the daemon runs but no longer answers after %s' % what)
            raise Abort()
        return True

    def check_daemons(self):
        for w in self.worlds:
            for d in set(w.daemons):
                for rep in d.san_reports('san'):
                    m = re.search(r'(ERROR: AddressSanitizer: [\w-]+|WARNING: MemorySanitizer: [\w-]+|runtime error: [^\n]*)', rep)
                    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) (/\S+)', rep)
                    where = next((f for f, p in fr if p.startswith(build.REPO + '/')), fr[0][0] if fr else '?')
                    self.bad('sanitizer:%s' % where, '%s in %s\n%s' % (m.group(1) if m else rep[:200], where, rep[:3000]))
                if d.expect_alive and d.p is not None and d.p.poll() is not None and not d.killed:
                    self.bad('daemon-died', 'the daemon ended by itself with status %s\n%s' % (d.p.returncode, d.stdout()[-1500:]))


def _run_one(job):
    prop, name, modname, fname, kw, seed, tier = job
    c = Case(prop, name, seed, tier)
    t0 = time.monotonic()
    err = None
    left = DEADLINE[tier] - (t0 - START)
    if left < 5:
        return dict(name=name, evaluations=0, distinct=set(), counts={}, samples=[], violations=[],
                    err='harness: no time left for this scenario', wall=0, job=job)

    def late(sig, frame):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(min(LIMIT[tier], left)))
    try:
        mod = importlib.import_module(modname)
        try:
            getattr(mod, fname)(c, **kw)
        finally:
            try:
                c.check_daemons()
            finally:
                for w in c.worlds:
                    w.close()
    except Abort:
        pass
    except world.Stalled as e:
        if not c.violations:
            c.live('stalled', str(e))
    except Late:
        if not c.violations:
            c.live('did-not-end', 'the scenario did not end in %d s: what it waits for does not happen, or far too slowly'
                   % (time.monotonic() - t0))
    except world.HarnessError as e:
        err = 'harness: %s' % e
    except build.BuildError as e:
        err = 'build: %s' % e
    except Exception:
        err = traceback.format_exc()
    return dict(name=name, evaluations=c.evaluations, distinct=c.distinct, counts=c.counts, samples=c.samples,
                violations=c.violations, err=err, wall=time.monotonic() - t0, job=job)


def load_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main(prop, argv):
    tier = 'quick'
    if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough':
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    only = None
    if '--replay' in argv:
        r = json.load(open(argv[argv.index('--replay') + 1]))
        seed, tier, only = r['seed'], r['tier'], r['scenario']
    if '--only' in argv:
        only = argv[argv.index('--only') + 1]
    t0 = time.monotonic()
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(4096, hard), hard))
    modname = prop.lower()
    mod = importlib.import_module(modname)
    for v in getattr(mod, 'VARIANTS', ['asan']):
        try:
            build.daemon(v)
        except build.BuildError as e:
            print('INCONCLUSIVE property=%s build failed\n%s' % (prop, e))
            return 2
    jobs = []
    for (name, fn, kw) in mod.scenarios(tier, seed):
        if only and not fnmatch.fnmatch(name, only):
            continue
        jobs.append((prop, name, fn.__module__, fn.__name__, kw, seed, tier))
    workers = getattr(mod, 'WORKERS', WORKERS)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(workers, max(1, len(jobs))), maxtasksperchild=1) as pool:
        results = pool.map(_run_one, jobs, chunksize=1)

    known = load_findings(prop)
    found, seen_known, inconclusive = [], {}, []

    def classify(res):
        out = []
        for kind, key, detail in res['violations']:
            full = '%s:%s' % (res['name'], key)
            for pat, what in known:
                if fnmatch.fnmatchcase(full, pat) or fnmatch.fnmatchcase(key, pat):
                    seen_known[pat] = what
                    break
            else:
                out.append((kind, key, detail))
        return out

    reruns = 0
    for r in results:
        vs = classify(r)
        safety = [v for v in vs if v[0] == 'safety']
        live = [v for v in vs if v[0] == 'live']
        if live and not safety and not found and time.monotonic() - START < DEADLINE[tier] - 60:
            # a missing event may be this machine's fault: it must show again when the scenario runs alone
            again = None
            for _ in range(3):
                reruns += 1
                with ctx.Pool(1, maxtasksperchild=1) as pool:
                    again = pool.map(_run_one, [r['job']])[0]
                v2 = classify(again)
                if any(v[0] == 'safety' for v in v2):
                    safety = [v for v in v2 if v[0] == 'safety']
                    live = []
                    break
                if any(v[1] == x[1] for v in v2 for x in live):
                    break
            else:
                print('note: %s: %s not reproduced in 3 reruns, not reported: %s' % (
                    r['name'], live[0][1], live[0][2].split('\n')[0][:300]))
                live = []
                if again['err'] is None:
                    r['err'] = None
        for v in safety + live:
            found.append((r, v))
        if r['err'] and not safety and not live:
            # the test-bed stumbled: try once more alone
            with ctx.Pool(1, maxtasksperchild=1) as pool:
                again = pool.map(_run_one, [r['job']])[0]
            v2 = [v for v in classify(again) if v[0] == 'safety']
            for v in v2:
                found.append((again, v))
            if again['err'] and not v2:
                inconclusive.append((r['name'], again['err']))
            elif not again['err']:
                r.update(again)

    distinct = set()
    counts, samples, ev = {}, [], 0
    for r in results:
        ev += r['evaluations']
        distinct |= r['distinct']
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for s in r['samples'][:1]:
            if len(samples) < 8:
                samples.append({'scenario': r['name'], 'case': s})
    wall = time.monotonic() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {'evaluations': ev, 'distinct_nontrivial': len(distinct), 'rule': mod.RULE,
                     'samples': samples or ['none'], 'observed': counts,
                     'scenarios': [{'name': r['name'], 'evaluations': r['evaluations'], 'wall_s': round(r['wall'], 2)}
                                   for r in results], 'reruns': reruns},
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': len(found),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
        os.rename(p + '.tmp', p)

    print('%s %s seed=%d: %d evaluations, %d distinct, %.1f s; observed %s' % (
        prop, tier, seed, ev, len(distinct), wall, json.dumps(counts, sort_keys=True)))
    for pat, what in known:
        if pat in seen_known or getattr(mod, 'PRINT_ALL_KNOWN', False):
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if found:
        rep = os.path.join(VERIF, 'replays')
        os.makedirs(rep, exist_ok=True)
        done = set()
        for r, (kind, key, detail) in found:
            if (r['name'], key) in done or len(done) >= 8:
                continue
            done.add((r['name'], key))
            path = os.path.join(rep, '%s-%s-%d.json' % (prop, re.sub(r'\W+', '_', r['name'] + '_' + key)[:80], seed))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'scenario': r['name'], 'seed': seed, 'tier': tier, 'kind': kind,
                           'key': key, 'detail': detail,
                           'how': './check.sh %s --replay %s' % (prop, path)}, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  [%s] %s: %s' % (r['name'], key, detail[:1200].replace('\n', '\n    ')))
        return 1
    if inconclusive:
        for n, e in inconclusive:
            print('INCONCLUSIVE %s %s: %s' % (prop, n, e[-2500:]))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2:]))
