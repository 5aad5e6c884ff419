"""Shared plumbing: building IR from /repo's working tree, evidence, verdicts."""
import json, os, subprocess, sys, time, glob, hashlib, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'
LLVMCONFIG = 'llvm-config-18' if shutil.which('llvm-config-18') else 'llvm-config'
INC = ['-I' + os.path.join(REPO, 'Code'), '-I' + os.path.join(REPO, 'Code', 'Json4C4'), '-I' + os.path.join(REPO, 'Code', 'Terathon')]


class AnalysisBroken(Exception):
    """The analysis itself cannot be carried out (nothing to analyse, tool missing)."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def sources():
    s = sorted(glob.glob(os.path.join(REPO, 'Code', 'Json4C4', '*.cpp')) + glob.glob(os.path.join(REPO, 'Code', 'Terathon', '*.cpp')))
    if not s:
        raise AnalysisBroken('no library sources found under %s/Code' % REPO)
    return s


def irdump_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    out = os.path.join(BUILD, 'irdump')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    fl = run([LLVMCONFIG, '--cxxflags']).stdout.replace('-fno-exceptions', '').split()
    ld = run([LLVMCONFIG, '--ldflags']).stdout.split()
    tmp = out + '.%d' % os.getpid()
    r = run([CXX, '-O1', '-std=c++17', *fl, '-w', src, '-o', tmp, *ld, '-lLLVM-18'])
    if r.returncode:
        raise AnalysisBroken('irdump does not build: ' + r.stderr[:2000])
    os.replace(tmp, out)
    return out


def module(probes=(), defines=(), passes='sroa', keep=None, life=False, inline=False):
    """Compile the library and the given probe files to one JSON-dumped LLVM module."""
    tool = irdump_tool()
    d = tempfile.mkdtemp(prefix='sa-', dir=BUILD)
    try:
        def comp(src):
            bc = os.path.join(d, os.path.basename(src) + '.' + hashlib.md5(src.encode()).hexdigest()[:6] + '.bc')
            r = run([CXX, '-std=c++17', *(['-O1', '-Xclang', '-disable-llvm-passes'] if inline else ['-O0', '-Xclang', '-disable-O0-optnone']), *(['-Xclang', '-fsanitize-address-use-after-scope'] if life else []), '-g', '-w', '-emit-llvm', '-c', *INC, *['-D' + x for x in defines], src, '-o', bc])
            if r.returncode:
                raise AnalysisBroken('does not compile: %s\n%s' % (src, r.stderr[:3000]))
            return bc
        srcs = sources() + [os.path.join(VERIF, 'probes', p) for p in probes]
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(comp, srcs))
        linked = os.path.join(d, 'all.bc')
        r = run([LINK, *bcs, '-o', linked])
        if r.returncode:
            raise AnalysisBroken('llvm-link: ' + r.stderr[:2000])
        if passes:
            o2 = os.path.join(d, 'opt.bc')
            r = run([OPT, *(['-inline-threshold=%d' % inline] if inline and inline is not True else []), '-passes=' + passes, linked, '-o', o2])
            if r.returncode:
                raise AnalysisBroken('opt: ' + r.stderr[:2000])
            linked = o2
        js = os.path.join(d, 'm.json')
        r = run([tool, linked, js])
        if r.returncode:
            raise AnalysisBroken('irdump: ' + r.stderr[:2000])
        if keep:
            shutil.copy(linked, keep)
        return json.load(open(js))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rel(path):
    if not path:
        return '?'
    p = os.path.realpath(path)
    return os.path.relpath(p, REPO) if p.startswith(REPO + '/') else p


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)).get('findings', []):
            if k['property'] == pid:
                out.append(k)
    return out


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.violations = []      # (key, text)
        self.coverage = {}
        self.assumptions = []
        self.undecided = []

    def violation(self, key, text):
        if all(k != key for k, _ in self.violations):
            self.violations.append((key, text))

    def finish(self, explanation, level='other'):
        known = known_findings(self.pid)
        new = []
        for key, text in self.violations:
            k = next((k for k in known if k['key'] == key), None)
            if k:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
            else:
                new.append((key, text))
        cov = dict(self.coverage)
        cov['explanation'] = explanation
        if self.undecided:
            cov['undecided'] = self.undecided[:50]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        for u in self.undecided[:10]:
            print('undecided: ' + str(u))
        if new:
            rp = os.path.join(BUILD, 'report-%s.txt' % self.pid)
            os.makedirs(BUILD, exist_ok=True)
            with open(rp, 'w') as f:
                for key, text in new:
                    f.write('[%s]\n%s\n\n' % (key, text))
            for key, text in new:
                print(text)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            sys.exit(1)
        print('%s: held (%.1f s)' % (self.pid, time.time() - self.t0))
        sys.exit(0)


def several(a):
    return [a[0](j) for j in a[1]]


def pooled(job, jobs, chunk, budget=500, enough=25):
    """the results of job over jobs, in parallel; stops when violations abound or the time is up (said in the last result)"""
    import multiprocessing
    t0, out, bad = time.time(), [], 0
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        it = p.imap_unordered(several, [(job, jobs[k:k + chunk]) for k in range(0, len(jobs), chunk)])
        for n in range(0, len(jobs), chunk):
            try:
                rs = it.next(timeout=max(1, budget - (time.time() - t0)))
            except multiprocessing.TimeoutError:
                out.append(dict(viol=[], undec=['%d of %d cases not analysed: out of time' % (len(jobs) - n, len(jobs))], paths=0, failed=0, blocks=0, steps=0, functions=[], name='time', s=0))
                p.terminate()
                break
            out += rs
            bad += sum(bool(r['viol']) for r in rs)
            if bad >= enough:
                p.terminate()
                break
    return sorted(out, key=lambda r: r['name'])
