"""Check runner: findings, known findings, evidence."""
import json
import os
import pickle
import struct
import sys
import tempfile
import time
import traceback

from . import terms as T
from .interp import GenV, Interp, Program
from .drivers import explore, describe, tstr

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LA_REPO', '/repo')


class Broken(Exception):
    """the analysis itself is broken (an anchor vanished)"""


class Finding(object):
    item = 0

    def __init__(self, key, text, where=None):
        self.key = key          # rule and construct, no line numbers
        self.text = text
        self.where = where


def consuming(body):
    """body, with a generator it returns run to its end"""
    def run(I):
        v = body(I)
        if isinstance(v, GenV):
            I.seq_of(v)
        return v
    return run


def opaque(t):
    return bool(t) and (t[0] == 'unk' or t[0] in ('opq', 'opqc') and len(t) > 1)


def covers(assignments):
    """do the assignments of truth values, lists of (condition, value), cover all cases"""
    if any(not a for a in assignments):
        return True
    if not assignments:
        return False
    c = assignments[0][0][0]
    for v in (True, False):
        if not covers([tuple(x for x in a if x[0] != c) for a in assignments if (c, not v) not in a]):
            return False
    return True


class Check(object):
    """one property; subclasses implement run()"""
    id = None
    rule = ''
    may = False             # are findings on one side of a condition that is not understood reported
    floor = 0               # discharged obligations confirmed by hand on the base tree

    def __init__(self, tier='quick', seed=1):
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.findings = {}
        self.obligations = 0
        self.discharged = 0
        self.undecided = {}
        self.samples = []
        self.entries = {}
        self.npaths = 0
        self.crashes = {}
        self.capped = []
        self.item = 0
        self._prog = None
        self._I = None
        self._unknown = ()
        self._maybe = {}
        self.extra = {}

    # ------------------------------------------------------------- resources
    @property
    def prog(self):
        if self._prog is None:
            self._prog = Program(REPO)
        return self._prog

    @property
    def I(self):
        if self._I is None:
            self._I = Interp(self.prog)
        return self._I

    # ------------------------------------------------------------- obligations
    def ok(self, what, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample is not None and len(self.samples) < 12 and \
                not any(s.split(' :: ')[0] == what for s in self.samples):
            self.samples.append(('%s :: %s' % (what, sample))[:600])

    def fail(self, key, text, where=None):
        self.obligations += 1
        if self._unknown:
            # on one side of a condition that is not understood: see settle
            self._maybe.setdefault(key, []).append((self._unknown, text, where))
            return
        self.report(key, text, where)

    def settle(self):
        """findings on paths with conditions that are not understood: reported if they arise whatever the conditions say"""
        for key, fs in self._maybe.items():
            if covers([f[0] for f in fs]):
                self.report(key, fs[0][1], fs[0][2])
            else:
                why = 'on a condition that is not understood: %s' % key
                self.undecided[why] = self.undecided.get(why, 0) + len(fs)
        self._maybe = {}

    def report(self, key, text, where=None):
        if key not in self.findings:
            self.findings[key] = Finding(key, text, where)
            self.findings[key].item = self.item

    def unknown(self, why):
        self.obligations += 1
        self.undecided[why] = self.undecided.get(why, 0) + 1

    # ------------------------------------------------------------- exploration
    def explore(self, case, visit, maxpaths=None):
        I = self.I
        n0 = self.npaths
        if maxpaths is None:
            maxpaths = 6000 if self.thorough else 1500
        self._maybe = {}

        def see(I, o):
            self._unknown = () if self.may else tuple((t, v) for t, v in o.taken if T.contains(t, opaque))
            try:
                return visit(I, o)
            finally:
                self._unknown = ()
        try:
            r = explore(I, consuming(case.body), see, maxpaths)
        except Broken:
            raise
        except Exception:
            msg = traceback.format_exc(limit=-3)
            self.crashes.setdefault(repr(case), msg)
            self.undecided['analysis gave up: %s' % case.entry] = \
                self.undecided.get('analysis gave up: %s' % case.entry, 0) + 1
            return None
        self.settle()
        self.npaths += r.paths
        e = self.entries.setdefault(case.entry, [0, 0])
        e[0] += 1
        e[1] += r.paths
        if r.capped:
            self.capped.append(repr(case))
        for why, n in r.ended.items():
            self.undecided['path ended: %s' % why] = self.undecided.get('path ended: %s' % why, 0) + n
        return r

    # ------------------------------------------------------------- sweeps
    def cases(self):
        raise NotImplementedError

    def visit(self, I, o, case):
        raise NotImplementedError

    def run(self):
        self.sweep(list(self.cases()), self.one_case)

    def one_case(self, case):
        self.explore(case, lambda I, o: self.visit(I, o, case))

    FIELDS = ('findings', 'obligations', 'discharged', 'undecided', 'samples', 'entries', 'npaths', 'crashes',
              'capped')

    def sweep(self, items, job):
        """job(item) for every item, on all cores; results merged in a fixed
        order, so that reports do not depend on scheduling"""
        n = max(1, min(int(os.environ.get('LA_JOBS') or os.cpu_count() or 1), 8, len(items)))
        self.prog                                   # parse once, before forking
        if n == 1:
            for it in items:
                job(it)
            return
        base = dict((f, getattr(self, f)) for f in self.FIELDS)
        # a queue of item numbers, the slow ones first
        order = sorted(range(len(items)), key=lambda i: (-getattr(items[i], 'weight', 0), i))
        rfd, wfd = os.pipe()
        todo = b''.join(struct.pack('I', i) for i in order)
        pids = []
        for w in range(n):
            fd, name = tempfile.mkstemp(prefix='lastatic')
            os.close(fd)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    for f in self.FIELDS:
                        setattr(self, f, type(base[f])())
                    self.extra = {}
                    self._I = None
                    os.close(wfd)
                    while 1:
                        b = os.read(rfd, 4)
                        if len(b) < 4:
                            break
                        self.item = struct.unpack('I', b)[0]
                        job(items[self.item])
                    out = dict((f, getattr(self, f)) for f in self.FIELDS)
                    out['unres'] = self._I.unresolved if self._I is not None else {}
                    out['extra'] = self.extra
                    with open(name, 'wb') as fh:
                        pickle.dump(out, fh)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append((pid, name))
        os.close(rfd)
        while todo:
            todo = todo[os.write(wfd, todo[:4096]):]
        os.close(wfd)
        bad = False
        I = self.I
        for pid, name in pids:
            _, st = os.waitpid(pid, 0)
            if st != 0:
                bad = True
                os.unlink(name)
                continue
            with open(name, 'rb') as fh:
                out = pickle.load(fh)
            os.unlink(name)
            for k, v in out['findings'].items():
                if k not in self.findings or v.item < self.findings[k].item:
                    self.findings[k] = v
            for f in ('obligations', 'discharged', 'npaths'):
                setattr(self, f, getattr(self, f) + out[f])
            for k, v in out['undecided'].items():
                self.undecided[k] = self.undecided.get(k, 0) + v
            self.samples.sort()
            for s in sorted(out['samples']):
                if len(self.samples) < 12 and not any(q.split(' :: ')[0] == s.split(' :: ')[0] for q in self.samples):
                    self.samples.append(s)
            for k, v in out['entries'].items():
                e = self.entries.setdefault(k, [0, 0])
                e[0] += v[0]
                e[1] += v[1]
            self.crashes.update(out['crashes'])
            self.capped += out['capped']
            for k, v in out['unres'].items():
                I.unresolved[k] = I.unresolved.get(k, 0) + v
            for k, v in out['extra'].items():
                if isinstance(v, dict):
                    d = self.extra.setdefault(k, {})
                    for q, c in v.items():
                        d[q] = d.get(q, 0) + c if isinstance(c, int) else c
                elif isinstance(v, int):
                    self.extra[k] = self.extra.get(k, 0) + v
        if bad:
            raise Broken('a worker of the analysis failed')

    def explanation(self):
        return self.rule


def where_of(e):
    return '%s:%s %s' % (e.get('file'), e.get('line'), e.get('func'))


def path_text(o, limit=12):
    d = [('' if v else 'not ') + tstr(t)[:160] for t, v in o.taken]
    if len(d) > limit:
        d = d[:limit] + ['... %d more' % (len(d) - limit)]
    return ' and '.join(d) or 'always'


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['entries']


def main(registry, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = argv[0]
    verbose = '-v' in argv
    t0 = time.time()
    chk = registry[pid](tier, seed)
    sys.setrecursionlimit(20000)
    chk.run()
    known = [k for k in load_known() if k['property'] == pid and k['status'] == 'known']
    knownkeys = dict((k['key'], k) for k in known)
    evdir = os.path.join(ROOT, 'evidence')
    if not os.path.isdir(evdir):
        os.makedirs(evdir)
    new = [f for k, f in sorted(chk.findings.items()) if k not in knownkeys]
    old = [f for k, f in sorted(chk.findings.items()) if k in knownkeys]
    I = chk._I
    cov = {
        'explanation': chk.explanation(),
        'rule_applied': chk.rule,
        'obligations': chk.obligations,
        'discharged': chk.discharged,
        'undecided': sum(chk.undecided.values()),
        'undecided_reasons': dict(sorted(chk.undecided.items(), key=lambda x: -x[1])[:20]),
        'entry_points': len(chk.entries),
        'contexts': sum(v[0] for v in chk.entries.values()),
        'paths': chk.npaths,
        'per_entry': dict((k, {'contexts': v[0], 'paths': v[1]}) for k, v in sorted(chk.entries.items())),
        'contexts_capped': chk.capped[:20],
        'modules_parsed': len(chk.prog.modules),
        'samples': chk.samples,
    }
    if I is not None:
        cov['unmodelled_constructs'] = sorted(I.unresolved, key=lambda k: -I.unresolved[k])[:30]
    cov.update(chk.extra)
    if chk.crashes:
        cov['analysis_gave_up_on'] = dict(list(chk.crashes.items())[:10])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': getattr(chk, 'assumptions', []),
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, knownkeys[f.key]['what']))
    print('%s: %d obligations, %d discharged, %d undecided; %d entry points, %d contexts, %d paths; %.1fs'
          % (pid, chk.obligations, chk.discharged, sum(chk.undecided.values()), len(chk.entries),
             cov['contexts'], chk.npaths, time.time() - t0))
    if verbose:
        for k, v in sorted(chk.undecided.items(), key=lambda x: -x[1])[:30]:
            print('   undecided %5d  %s' % (v, k[:200]))
        for k, v in chk.crashes.items():
            print('   gave up %s\n%s' % (k, v))
        if I is not None:
            for k in cov['unmodelled_constructs']:
                print('   unmodelled %s' % k[:200])
        for k in chk.capped[:10]:
            print('   capped %s' % k[:200])
    if new:
        rp = os.path.join('evidence', '%s.violation.txt' % pid)
        with open(os.path.join(ROOT, rp), 'w') as f:
            for x in new:
                f.write('[%s]\n%s\n%s\n\n' % (x.key, x.where or '', x.text))
        for x in new[:40]:
            print('[%s] %s\n    %s' % (x.key, x.where or '', x.text))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if chk.discharged < chk.floor:
        print('analysis broken: %d obligations discharged, at least %d expected' % (chk.discharged, chk.floor))
        return 2
    return 0
