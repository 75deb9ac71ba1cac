#!/usr/bin/env python3
"""Check driver:  run.py <ID> quick|thorough      decide one property
                  run.py replay <FILE>            run one recorded reproduction
                  run.py setup                    warm the object cache
Builds the harness of the property from the current tree of the library under
test, runs it in parallel, confirms and records what failed."""
import sys, os, json, hashlib, subprocess, time, re, shutil, tempfile, signal
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(V, 'h')
BUILD = os.path.join(V, '.build')
NW = 8
sys.path.insert(0, V)
from checks import CHECKS, UNITS  # noqa: E402

class BuildError(Exception):
    def __init__(self, what, log): self.what, self.log = what, log

# ---- build -----------------------------------------------------------------
def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if p.endswith(('.hpp', '.h', '.in', '.ipp', '.cpp', '.inc')):
                    h.update(os.path.relpath(p, r).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def make_version(tmp):
    d = os.path.join(tmp, 'gen', 'p1788'); os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, 'p1788', 'version.hpp.in')
    s = open(src).read() if os.path.exists(src) else ''
    s = re.sub(r'@[A-Za-z0-9_]*@', '0', s)
    open(os.path.join(d, 'version.hpp'), 'w').write(s)
    return os.path.join(tmp, 'gen')

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)

def compiler_ok(tmp, cxx):
    p = os.path.join(tmp, 'probe.cpp')
    open(p, 'w').write('#include <mpfr.h>\n#include <string>\nint main(){mpfr_t x;mpfr_init(x);mpfr_clear(x);}\n')
    return sh([cxx, '-std=c++14', p, '-o', p + '.exe', '-lmpfr', '-lgmp']).returncode == 0

def make_locales(tmp):
    """Named locales for the checks that change the locale, compiled into tmp; without them those cases stay in C."""
    d = os.path.join(tmp, 'loc'); os.makedirs(d, exist_ok=True)
    try:
        ps = [subprocess.Popen(['localedef', '-i', i, '-f', f, os.path.join(d, n)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
              for i, f, n in [('de_DE', 'UTF-8', 'de_DE.UTF-8'), ('fr_FR', 'UTF-8', 'fr_FR.UTF-8'), ('tr_TR', 'UTF-8', 'tr_TR.UTF-8'), ('tr_TR', 'ISO-8859-9', 'tr_TR')]]
        for p in ps: p.wait(120)
    except (OSError, subprocess.SubprocessError): pass
    RUNENV['LOCPATH'] = d

def build(units, flags, tmp, cxx='g++', link=(), name='check.exe', std='c++14', fallback=None, plain=(), inc=(), tag=''):
    gen = make_version(tmp)
    lib = tree_hash(os.path.join(REPO, 'p1788')); har = tree_hash(H)
    hdr = hashlib.sha256()
    for f in sorted(os.listdir(H)):
        if f.endswith('.hpp'): hdr.update(f.encode()); hdr.update(open(os.path.join(H, f), 'rb').read())
    hdr = hdr.hexdigest()
    os.makedirs(BUILD, exist_ok=True)
    def one(u, cxx=cxx):
        src = os.path.join(H, u + '.cpp')
        base = ['g++', '-std=c++14', '-w', '-O1', '-g'] if u in plain else [cxx, '-std=' + std, '-w'] + list(flags)
        uses_lib = UNITS.get(u, True)
        key = hashlib.sha256('|'.join([' '.join(base), '' if u in plain else tag, lib if uses_lib else '-', hdr, open(src).read()]).encode()).hexdigest()[:32]
        o = os.path.join(BUILD, key + '.o')
        if not os.path.exists(o):
            t = o + '.%d.%s.o' % (os.getpid(), u)
            for attempt in (0, 1):
                r = sh(base + ['-I' + d for d in inc] + ['-I' + REPO, '-I' + gen, '-I' + H, '-c', src, '-o', t])
                if r.returncode == 0: break
                if b'Killed' not in r.stdout and b'internal compiler error' not in r.stdout: break
            if r.returncode != 0 and fallback and cxx != fallback: return one(u, fallback)    # this compiler rejects a unit that the other one takes
            if r.returncode != 0: return BuildError(u, r.stdout.decode(errors='replace'))
            os.rename(t, o)
        return o
    with ThreadPoolExecutor(NW) as ex: objs = list(ex.map(one, units))
    for o in objs:
        if isinstance(o, BuildError): raise o
    exe = os.path.join(tmp, name)
    r = sh([cxx] + [f for f in flags if f.startswith('-fsanitize')] + ['-o', exe] + objs + list(link) + ['-Wl,--allow-multiple-definition', '-lmpfr', '-lgmp'])
    if r.returncode != 0: raise BuildError('link', r.stdout.decode(errors='replace'))
    return exe

# units that draw the operands: the same objects in every peer, so that all of them draw the same operands
PLAIN = ('core', 'num', 'oracle', 'lit', 'any', 'fwdgen', 'revgen', 'prop_A31')
def build_peers(cfg, tmp, units):
    """The same program built in other ways, for the check that compares them (in the environment: VH_PEERS)."""
    out = []
    cpu = open('/proc/cpuinfo').read()
    for k, q in enumerate(cfg['peers']):
        fl = [f for f in q['flags'] if f != '-mfma' or re.search(r'\bfma\b', cpu)]
        if not compiler_ok(tmp, q['cxx']): continue
        inc = []
        for f, old, new in q.get('overlay', []):    # an equivalent spelling for a compiler that rejects this one
            try: t = open(os.path.join(REPO, f), errors='surrogateescape').read()
            except OSError: continue
            if old not in t: continue
            d = os.path.join(tmp, 'overlay%d' % k); os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            open(os.path.join(d, f), 'w', errors='surrogateescape').write(t.replace(old, new)); inc = [d]
        a = dict(name='peer%d.exe' % k, std=q['std'], plain=PLAIN, fallback='g++', inc=inc, tag=repr(q.get('overlay')))
        e = build(units, fl, tmp, q['cxx'], **a)
        out.append('%s=%s -std=%s %s' % (e, q['cxx'], q['std'], ' '.join(fl)))
    RUNENV['VH_PEERS'] = ';'.join(out)

def prune_cache(limit=600):
    try:
        fs = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD)), key=os.path.getmtime)
        for f in fs[:-limit]: os.unlink(f)
    except OSError: pass

# ---- known findings ----------------------------------------------------------
def known_findings(pid):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]

# ---- run ---------------------------------------------------------------------
RUNENV = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=67', TSAN_OPTIONS='halt_on_error=1:exitcode=68:report_signal_unsafe=0:history_size=4')

MEMLIM = [3500 << 20]    # address space of a worker; sanitizers need more
def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if MEMLIM[0]: resource.setrlimit(resource.RLIMIT_AS, (MEMLIM[0], MEMLIM[0]))

def execw(args, timeout):
    p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=RUNENV, preexec_fn=limits, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout); return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate()
        return 'timeout', o.decode(errors='replace'), e.decode(errors='replace')

def crash_name(rc):
    if rc == 'timeout' or rc == 97: return 'hang'
    if rc == 66: return 'asan'
    if rc == 67: return 'ubsan'
    if rc == 68: return 'tsan'
    if isinstance(rc, int) and rc < 0:
        try: return 'crash:' + signal.Signals(-rc).name
        except ValueError: return 'crash:%d' % rc
    return 'exit:%s' % rc

def read_prog(p):
    try:
        b = open(p, 'rb').read(16); return int.from_bytes(b[:8], 'little')
    except OSError: return None

def summarize_err(e):
    for l in e.splitlines():
        if 'ERROR: AddressSanitizer' in l or 'WARNING: ThreadSanitizer' in l or 'runtime error:' in l or 'Assertion' in l or 'terminate called' in l: return l.strip()[:300]
    return e.strip()[-300:]

def err_site(e):
    m = re.search(r'runtime error: ([^\n]*)', e)
    k = ''
    if m: k = re.sub(r'[-+]?[0-9][0-9a-fx.e+-]*', 'N', m.group(1))[:60]
    m = re.search(r'ERROR: AddressSanitizer: ([a-z-]+)', e)
    if m: k = m.group(1)
    if 'ThreadSanitizer: ' in e: k = re.search(r'ThreadSanitizer: ([a-z ]+)', e).group(1).strip()
    m = re.search(r'#\d+ (?:0x[0-9a-f]+ in )?((?:p1788|void p1788|[a-z:]* ?p1788)[^(<\n]*)', e) or re.search(r'(p1788/[\w/]+\.hpp):\d+', e)
    if m: k += '@' + m.group(1).strip()
    return k

def run_search(pid, exe, cfg, tier, seed, tmp, tag=''):
    """all workers of one executable -> (stats, fails)"""
    cases = cfg[tier]; limit = cfg.get('limit', {}).get(tier, 200 if tier == 'quick' else 3000)
    outs = []
    def work(w):
        out = os.path.join(tmp, 'out%s.%d.json' % (tag, w)); prog = os.path.join(tmp, 'prog%s.%d' % (tag, w))
        t0 = time.time()
        rc, o, e = execw([exe, '--seed', str(seed), '--worker', str(w), '--cases', str(cases), '--time', str(limit), '--out', out, '--prog', prog], limit + 150)
        return w, rc, e, out, prog, time.time() - t0
    with ThreadPoolExecutor(NW) as ex: rs = list(ex.map(work, range(NW)))
    st = dict(ran=0, nontrivial=0, known=0, labels={}, samples=[], rule='', secs=0.0, crashed=0)
    fails = {}
    for w, rc, e, out, prog, secs in rs:
        st['secs'] = max(st['secs'], secs)
        if rc in (0, 1) and os.path.exists(out):
            j = json.load(open(out))
            st['ran'] += j['ran']; st['nontrivial'] += j['nontrivial']; st['known'] += j['known']; st['rule'] = j['rule']
            for k, v in j['labels'].items(): st['labels'][k] = st['labels'].get(k, 0) + v
            st['samples'] += [s for s in j['samples'] if s][:1]
            for f in j['fails']:
                k = f['key']
                f['seed'] = seed
                if k not in fails or len(f['tape']) < len(fails[k]['tape']): f['count'] += fails.get(k, {}).get('count', 0); fails[k] = f
                else: fails[k]['count'] += f['count']
        else:
            st['crashed'] += 1
            idx = read_prog(prog); st['ran'] += idx or 0
            name = crash_name(rc); site = err_site(e)
            k = '%s:%s%s' % (pid, name, ':' + site if site else '')
            if k not in fails:
                fails[k] = dict(key=k, msg='the process ended with %s while running case %s\n%s' % (name, idx, summarize_err(e)), desc='', tape=None, worker=w, case=idx, seed=seed, count=1, stderr=e[-6000:], crash=name)
            else: fails[k]['count'] += 1
    hs = [r[3] + '.hash' for r in rs if os.path.exists(r[3] + '.hash')]
    rc, o, e = execw([exe, '--count-distinct'] + hs, 300)
    st['distinct'] = int(o) if rc == 0 and o.strip().isdigit() else 0
    return st, fails

def confirm(exe, f, tmp, n=3, timeout=150):
    """reproduce a failure n times; returns the way to reproduce it or None"""
    if f.get('tape') is not None:
        p = os.path.join(tmp, 'cand.json'); json.dump(dict(tape=f['tape']), open(p, 'w'))
        ok = True
        for _ in range(n):
            rc, o, e = execw([exe, '--replay', p], timeout)
            if not (rc == 1 and ('FAIL key=' + f['key']) in o) and not (rc not in (0, 1)): ok = False; break
        if ok: return 'tape'
    if f.get('case') is None: return None
    want_crash = f.get('crash')
    for mode in ('one', 'prefix'):
        ok = True
        for _ in range(n if mode == 'one' else 2):
            a = [exe, '--seed', str(f['seed']), '--worker', str(f['worker']), '--out', os.path.join(tmp, 'c.json'), '--prog', os.path.join(tmp, 'c.prog')]
            a += ['--one', str(f['case'])] if mode == 'one' else ['--cases', str(f['case'] + 1)]
            try: os.unlink(os.path.join(tmp, 'c.json'))
            except OSError: pass
            rc, o, e = execw(a, timeout if mode == 'one' else 600)
            if want_crash: good = rc not in (0, 1)
            else:
                good = rc == 1 and any(x['key'] == f['key'] for x in json.load(open(os.path.join(tmp, 'c.json')))['fails'])
            if not good: ok = False; break
        if ok: return mode
    return None

def write_evidence(pid, tier, seed, cov, assumptions, wall, nviol):
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    j = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=nviol)
    p = os.path.join(V, 'evidence', pid + '.json')
    json.dump(j, open(p + '.tmp', 'w'), indent=1); os.rename(p + '.tmp', p)

def replay_path(pid, key):
    d = os.path.join(V, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
    return os.path.join(d, pid + '-' + hashlib.sha256(key.encode()).hexdigest()[:10] + '.json')

class Reporter:
    def __init__(self, pid):
        self.pid, self.viol, self.kf = pid, [], []
        self.known = known_findings(pid)
        self.kfseen = {}
    def report(self, f, rep):
        for k in self.known:
            if k['key'] == f['key']:
                self.kfseen[k['key']] = True
                return
        p = replay_path(self.pid, f['key'])
        rep = dict(rep, property=self.pid, key=f['key'], message=f.get('msg', ''), case_description=f.get('desc', ''))
        json.dump(rep, open(p, 'w'), indent=1)
        self.viol.append((f, p))
        print('--- %s: %s (seen %s times)\n%s' % (self.pid, f['key'], f.get('count', 1), f.get('msg', '')))
        print('VIOLATION property=%s replay=%s' % (self.pid, p)); sys.stdout.flush()
    def finish(self):
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))

def check(pid, tier):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = CHECKS[pid]
    tmp = tempfile.mkdtemp(prefix='vh-%s-' % pid)
    rp = Reporter(pid)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[])
    try:
        if 'custom' in cfg:
            import importlib
            cov = importlib.import_module(cfg['custom']).run(sys.modules[__name__], pid, tier, seed, tmp, rp)
        else:
            if cfg.get('locales'): make_locales(tmp)
            runs = [('', cfg)] + [(':' + v['tag'], dict(cfg, **v)) for v in cfg.get('variants', [])]
            for tag, c in runs:
                MEMLIM[0] = None if '-fsanitize' in ' '.join(c.get('flags', [])) else 3500 << 20
                try:
                    exe = build(c['units'], c.get('flags', ['-O1', '-g']), tmp, c.get('cxx', 'g++'))
                    if 'peers' in c: build_peers(c, tmp, c['units'])
                except BuildError as b:
                    if not compiler_ok(tmp, c.get('cxx', 'g++')):
                        print('error: the compiler does not work here\n' + b.log[-2000:]); raise SystemExit(1)
                    f = dict(key='%s:build:%s' % (pid, b.what), msg='code that uses the library does not build (%s)\n%s' % (b.what, b.log[:3000]), count=1)
                    rp.report(f, dict(kind='build', unit=b.what, log=b.log[:20000])); continue
                if tag and execw([exe, '--cases', '0', '--out', os.path.join(tmp, 'probe.json')], 60)[0] != 0:
                    cov.setdefault('variants_not_runnable_here', []).append(tag[1:]); continue
                st, fails = run_search(pid, exe, c, tier, seed, tmp, tag.replace(':', '_'))
                cov['evaluations'] += st['ran']; cov['distinct_nontrivial'] += st['distinct']
                cov['rule'] = cov['rule'] or st['rule']
                cov['samples'] = (cov['samples'] + st['samples'])[:8]
                cov['labels' + tag] = dict(sorted(st['labels'].items())); cov['nontrivial_generated' + tag] = st['nontrivial']
                cov['search_seconds' + tag] = round(st['secs'], 2); cov['workers'] = NW
                if st['known']: cov['cases_skipped_as_known' + tag] = st['known']
                for k in sorted(fails, key=lambda k: (-fails[k]['count'], k))[:12]:
                    f = fails[k]; how = confirm(exe, f, tmp)
                    if how is None:
                        cov.setdefault('not_reproduced', []).append(f['key'] + ': ' + f['msg'][:300]); continue
                    rp.report(f, dict(kind='case', how=how, variant=tag, tape=f.get('tape'), seed=f['seed'], worker=f.get('worker'), case=f.get('case'), stderr=f.get('stderr', '')))
        rp.finish()
        if not cov['samples']: cov['samples'] = ['(none)']
        write_evidence(pid, tier, seed, cov, cfg.get('assumptions', []), time.time() - t0, len(rp.viol))
    finally:
        shutil.rmtree(tmp, ignore_errors=True); prune_cache()
    print('%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s' % (pid, tier, cov['evaluations'], cov['distinct_nontrivial'], len(rp.viol), time.time() - t0))
    return 1 if rp.viol else 0

def replay(path):
    j = json.load(open(path)); pid = j['property']; cfg = CHECKS[pid]
    if 'custom' in cfg:
        import importlib
        return importlib.import_module(cfg['custom']).replay(sys.modules[__name__], pid, j)
    tmp = tempfile.mkdtemp(prefix='vh-replay-')
    try:
        tag = j.get('variant', '')
        for v in cfg.get('variants', []):
            if ':' + v['tag'] == tag: cfg = dict(cfg, **v)
        MEMLIM[0] = None if '-fsanitize' in ' '.join(cfg.get('flags', [])) else 3500 << 20
        if cfg.get('locales'): make_locales(tmp)
        try:
            exe = build(cfg['units'], cfg.get('flags', ['-O1', '-g']), tmp, cfg.get('cxx', 'g++'))
            if 'peers' in cfg: build_peers(cfg, tmp, cfg['units'])
        except BuildError as b: print(b.log[:4000]); print('FAIL build'); return 1
        if j.get('kind') == 'build': print('builds now'); return 0
        if j['how'] == 'tape': a = [exe, '--replay', path]
        else:
            a = [exe, '--seed', str(j['seed']), '--worker', str(j['worker']), '--prog', os.path.join(tmp, 'p')]
            a += ['--one', str(j['case'])] if j['how'] == 'one' else ['--cases', str(j['case'] + 1)]
        rc, o, e = execw(a, 900); print(o[-6000:]); print(e[-6000:])
        return 0 if rc == 0 else 1
    finally: shutil.rmtree(tmp, ignore_errors=True)

def main():
    if len(sys.argv) < 3 and not (len(sys.argv) == 2 and sys.argv[1] == 'setup'):
        print(__doc__); return 1
    if sys.argv[1] == 'setup':
        tmp = tempfile.mkdtemp(prefix='vh-setup-')
        ok = compiler_ok(tmp, 'g++'); shutil.rmtree(tmp, ignore_errors=True)
        print('toolchain ok' if ok else 'toolchain broken'); return 0 if ok else 1
    if sys.argv[1] == 'replay': return replay(os.path.abspath(sys.argv[2]))
    return check(sys.argv[1], sys.argv[2])

if __name__ == '__main__':
    sys.exit(main())
