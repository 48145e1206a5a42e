"""Common driver: building bitcode from /repo's working tree, extracting flow
graphs, counting obligations, reporting violations and writing evidence."""
import os, sys, json, time, hashlib, subprocess, re, glob, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(HERE, '.cache')
IRX = os.path.join(HERE, 'tool', 'bin', 'irx')
EVID = os.environ.get('VERIF_EVID', os.path.join(HERE, 'evidence'))
KNOWN = os.path.join(HERE, 'known_findings.txt')

CXX = ['clang++', '-std=c++0x', '-Wno-everything', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off',
       '-g', '-fstandalone-debug', '-fno-discard-value-names',
       '-include', 'cstdint', '-include', 'algorithm']
CC = ['clang', '-std=c99', '-Wno-everything', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-g',
      '-fno-discard-value-names']


class AnalysisError(Exception):
    """the analysis could not be carried out (not a verdict)"""


_srchash = None


def srchash():
    """hash of every source file of the tree under analysis and of our own sources"""
    global _srchash
    if _srchash is None:
        h = hashlib.sha256()
        files = []
        for base in (REPO, os.path.join(HERE, 'harness'), os.path.join(HERE, 'tool')):
            for d, ds, fs in os.walk(base):
                ds[:] = [x for x in ds if x not in ('.git', 'bin', '.cache')]
                for f in fs:
                    if f.endswith(('.cc', '.hpp', '.h', '.c', '.cpp', '.inc')):
                        files.append(os.path.join(d, f))
        for f in sorted(files):
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read())
        _srchash = h.hexdigest()
    return _srchash


def ensure_tool():
    r = subprocess.run(['bash', os.path.join(HERE, 'tool', 'build.sh')], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError('cannot build the front end: ' + r.stderr[-2000:])


def cachefile(key, ext):
    os.makedirs(CACHE, exist_ok=True)
    return os.path.join(CACHE, hashlib.sha256((srchash() + '\0' + key).encode()).hexdigest()[:32] + ext)


def prune_cache():
    """keep the cache small: drop entries of other trees older than an hour"""
    try:
        now = time.time()
        for f in glob.glob(os.path.join(CACHE, '*')):
            if now - os.path.getmtime(f) > 3600:
                os.unlink(f)
    except OSError:
        pass


def bitcode(src, flags=(), lang=None, eh=False):
    """compile one translation unit to bitcode with the repository's flags"""
    if lang is None:
        lang = 'c' if src.endswith('.c') else 'c++'
    base = list(CC if lang == 'c' else CXX)
    if lang != 'c' and not eh:
        base.append('-fignore-exceptions')
    cmd = base + list(flags) + ['-emit-llvm', '-c', src]
    out = cachefile(' '.join(cmd), '.bc')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run(cmd + ['-o', tmp], capture_output=True, text=True, cwd=REPO)
        if r.returncode != 0:
            raise AnalysisError('cannot compile %s: %s' % (src, r.stderr[-3000:]))
        os.rename(tmp, out)
    return out


def bitcodes(jobs):
    """[(src, flags)] compiled in parallel"""
    srchash()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: bitcode(*j), jobs))


def harness(name, flags=()):
    return bitcode(os.path.join(HERE, 'harness', name), ['-include', 'string', '-I' + os.path.join(HERE, 'harness'), '-I' + REPO, '-I' + os.path.join(REPO, 'search')] + list(flags))


def graphs(bcs, entries, marks='', force=(), skip=(), noopt=False):
    """flow graphs of the functions whose demangled names match `entries`"""
    from flow import Fn
    if isinstance(bcs, str):
        bcs = [bcs]
    args = list(bcs)
    for e in entries:
        args += ['-entry', e]
    for m in marks.split('\n'):
        if m.strip() and not m.startswith('#'):
            args += ['-mark', m.strip()]
    for f in force:
        args += ['-force', f]
    for s in skip:
        args += ['-skip', s]
    if noopt:
        args += ['-noopt']
    key = hashlib.sha256(open(IRX, 'rb').read()).hexdigest() + ' '.join(args)
    out = cachefile(key, '.json')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run([IRX] + args + ['-o', tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError('irx failed: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return [Fn(d) for d in json.load(open(out))]


def listing(bc):
    r = subprocess.run([IRX, bc, '-list'], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError('irx -list failed')
    return r.stdout.split('\n')


def pmap(f, items, procs=8):
    """apply f (returning picklable data) in forked workers"""
    import multiprocessing as mp
    items = list(items)
    if len(items) <= 1:
        return [f(x) for x in items]
    global _pf, _pi
    _pf, _pi = f, items
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(items))) as pool:
        res = pool.map(_pcall, range(len(items)), chunksize=1)
    out = []
    for ok, r in res:
        if not ok:
            raise AnalysisError(r)
        out.append(r)
    return out


def _pcall(k):
    try:
        return True, _pf(_pi[k])
    except AnalysisError as e:
        return False, str(e)
    except Exception:
        return False, traceback.format_exc()


def rel(loc):
    if not loc:
        return '?'
    m = re.match(r'(.*):(\d+)$', loc)
    if m:
        return os.path.relpath(os.path.normpath(m.group(1)), REPO) + ':' + m.group(2)
    return os.path.relpath(os.path.normpath(loc), REPO)


class Check:
    def __init__(self, pid, tier, rule, assumptions=(), technique=''):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.rule = rule
        self.assumptions = list(assumptions)
        self.obl = {}          # rule name -> [n ok]
        self.bad = {}          # key -> record
        self.samples = []
        self.analysed = {}
        self.notes = []
        self.mins = []
        self.tags, self.uses = set(), set()

    # one obligation decided
    def ok(self, rule, n=1, sample=None):
        self.obl[rule] = self.obl.get(rule, 0) + n
        if sample and len(self.samples) < 40 and sum(1 for s in self.samples if s.startswith(rule + ':')) < 3:
            self.samples.append('%s: %s' % (rule, sample))

    def fail(self, rule, key, loc, why, trace=None):
        self.obl[rule] = self.obl.get(rule, 0) + 1
        k = '%s|%s' % (rule, key)
        if k not in self.bad:
            self.bad[k] = {'rule': rule, 'key': k, 'loc': rel(loc) if loc else '?', 'why': why, 'trace': trace}

    def decide(self, cond, rule, key, loc, why, trace=None, sample=None):
        if cond:
            self.ok(rule, sample=sample)
        else:
            self.fail(rule, key, loc, why, trace)
        return cond

    def absorb(self, results):
        """merge records produced by workers: list of ('ok',rule,n,sample) / ('fail',...)"""
        for r in results:
            if r[0] == 'tag':
                self.tags.add(r[1])
            elif r[0] == 'use':
                self.uses.add(r[1])
            elif r[0] == 'ok':
                self.ok(r[1], r[2], r[3])
            else:
                self.fail(*r[1:])

    def atleast(self, rule, n):
        self.mins.append((rule, n))

    def count(self, what, n):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def finish(self):
        short = []
        for rule, n in self.mins:
            if self.obl.get(rule, 0) < n:
                short.append('%s: %d instances decided, at least %d expected' % (rule, self.obl.get(rule, 0), n))
        known = load_known(self.pid)
        newbad, oldbad = [], []
        for k, r in sorted(self.bad.items()):
            (oldbad if k in known else newbad).append(r)
        total = sum(self.obl.values())
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'obligations': total,
                'discharged': total - len(self.bad),
                'obligations_by_rule': self.obl,
                'analysed': self.analysed,
                'known_findings_seen': [r['key'] for r in oldbad],
                'samples': self.samples or ['none'],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(newbad),
        }
        if self.notes:
            ev['coverage']['notes'] = self.notes
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.pid + '.json'), 'w'), indent=1, sort_keys=True)
        for r in oldbad:
            print('KNOWN-FINDING: property=%s %s %s' % (self.pid, r['loc'], known[r['key']]))
        if newbad:
            rp = os.path.join(EVID, self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for r in newbad:
                    f.write('[%s] %s at %s\n  %s\n' % (r['rule'], r['key'], r['loc'], r['why']))
                    if r['trace']:
                        f.write('  path:\n' + r['trace'] + '\n')
                    f.write('\n')
            for r in newbad[:20]:
                print('%s: [%s] %s (%s)' % (r['loc'], r['rule'], r['why'], r['key']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if short:
            raise AnalysisError('; '.join(short))
        print('%s: %d obligations decided, 0 new violations, %d known; %s; %.1fs' % (
            self.pid, total, len(oldbad), ', '.join('%s=%d' % kv for kv in sorted(self.obl.items())), time.time() - self.t0))
        return 0


def load_known(pid):
    known = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known
