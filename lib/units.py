"""Every translation unit of the repository: bitcode, compiler format diagnostics and calls."""
import glob, hashlib, json, subprocess
from srch import *

UFLAGS = {'tiles': ['-DWIDTH=4', '-DHEIGHT=4'], 'pancake': ['-DNCAKES=50']}
FORMATS = {'dfpair': 3, 'fatal': 1, 'fatalx': 2, 'warn': 1, 'warnx': 2, 'testpr': 1}
ATTR = os.path.join(vf.HERE, 'harness', 'formats.h')


def units():
    out = []
    for s in sorted(glob.glob(os.path.join(vf.REPO, '*', '*.cc')) + glob.glob(os.path.join(vf.REPO, '*', '*', '*.cc'))):
        r = os.path.relpath(s, vf.REPO)
        if re.match(r'(test|.*_test$|test_.*)', os.path.basename(r)[:-3]) or r.startswith(('_build/', '.')):
            continue
        out.append((s, UFLAGS.get(r.split('/')[0], [])))
    return out


def unit_bcs():
    """[(src, bitcode)] of every unit that compiles; the library headers some tools
    need may be missing, those units are returned with None"""
    def one(j):
        try:
            return j[0], vf.bitcode(*j)
        except vf.AnalysisError:
            return j[0], None
    vf.srchash()
    with vf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units()))


def diagnostics():
    """[(src, [(file, line, message)])]: what the compiler says about formats when the
    printing functions of the repository are declared to take formats"""
    def one(j):
        src, fl = j
        base = [x for x in vf.CXX if x not in ('-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-fno-discard-value-names', '-Wno-everything')]
        cmd = base + ['-Wno-everything', '-Wformat', '-Wformat-security', '-Wnon-pod-varargs', '-fsyntax-only', '-include', ATTR] + fl + [src]
        out = vf.cachefile(' '.join(cmd), '.diag')
        if not os.path.exists(out):
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=vf.REPO)
            with open(out + '.%d' % os.getpid(), 'w') as f:
                f.write('%d\n' % r.returncode + r.stderr)
            os.rename(out + '.%d' % os.getpid(), out)
        L = open(out).read().split('\n')
        res = []
        for l in L[1:]:
            m = re.match(r'(\S+?):(\d+):\d+: warning: (.*?) \[-W', l)
            if m:
                res.append((os.path.normpath(os.path.join(vf.REPO, m.group(1))), int(m.group(2)), m.group(3)))
        return src, int(L[0]) == 0, res
    vf.srchash()
    with vf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units()))


_calls = None


def calls():
    """[(src, functions)]: every call of every function of the repository"""
    global _calls
    if _calls is None:
        key = hashlib.sha256(open(vf.IRX, 'rb').read()).hexdigest()

        def one(j):
            src, bc = j
            if bc is None:
                return src, []
            out = vf.cachefile(key + 'calls' + bc, '.json')
            if not os.path.exists(out):
                tmp = out + '.%d' % os.getpid()
                r = subprocess.run([vf.IRX, bc, '-calls', '-o', tmp], capture_output=True, text=True)
                if r.returncode != 0:
                    raise AnalysisError('irx -calls failed: ' + r.stderr[-500:])
                os.rename(tmp, out)
            return src, json.load(open(out))
        with vf.ThreadPoolExecutor(8) as ex:
            _calls = list(ex.map(one, unit_bcs()))
    return _calls


def callmap():
    """function name -> list of callee names, over the whole repository"""
    m = {}
    for _, fns in calls():
        for f in fns:
            m.setdefault(f['name'], set()).update(c['to'] for c in f['calls'])
    return m


def reach(m, seeds, cut=lambda n: False):
    """functions from which some seed can be reached"""
    rev = {}
    for a, bs in m.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    out, todo = set(), list(seeds)
    while todo:
        n = todo.pop()
        for a in rev.get(n, ()):
            if a not in out and not cut(a):
                out.add(a)
                todo.append(a)
    return out
