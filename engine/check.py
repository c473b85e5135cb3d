"""The check of one property: extract, verify every function under contract, triage failures, write evidence.

usage: python3-vt -m engine.check PROPERTY [--thorough] [--verbose]
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src/lib'
LIB = SRC + '/sup/oac-tree'
CACHE = os.environ.get('VERIF_CACHE', ROOT + '/cache')
EXTRACT = ROOT + '/extractor/extract.bin'
EVID = ROOT + '/evidence'
JOBS = 8


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_extractor():
    src = ROOT + '/extractor/extract.cpp'
    tag = EXTRACT + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(EXTRACT) and os.path.exists(tag) and open(tag).read() == h:
        return
    tmp = EXTRACT + '.%d' % os.getpid()
    r = sh(['g++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D__STDC_LIMIT_MACROS',
            '-D__STDC_CONSTANT_MACROS', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1',
            '-l:libLLVM.so.18.1'])
    if r.returncode:
        raise SystemExit('cannot build the extractor:\n' + r.stdout[-3000:])
    os.replace(tmp, EXTRACT)
    with open(tag, 'w') as f:
        f.write(h)


# ------------------------------------------------------------------------------------------- fingerprints
_TOK = re.compile(r'R"([^()\\\s]{0,16})\(.*?\)\1"|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)+\'|//(?:[^\n\\]|\\.)*|/\*.*?\*/',
                  re.S)
_INC = re.compile(r'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', re.M)
_files = {}


def scan(path):
    """text without comments (comments do not change what the code does), and its includes"""
    if path not in _files:
        t = open(path, errors='replace').read()
        t = _TOK.sub(lambda m: ' ' if m.group(0).startswith(('//', '/*')) else m.group(0), t)
        t = '\n'.join(l.rstrip() for l in t.split('\n') if l.strip())
        _files[path] = (hashlib.sha256(t.encode()).hexdigest(), _INC.findall(t))
    return _files[path]


def closure(src):
    """the source and every header of ours it reaches"""
    dirs = [SRC, ROOT + '/stubs', ROOT + '/drivers']
    seen, todo = {}, [os.path.abspath(src)]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        h, inc = scan(f)
        seen[f] = h
        for i in inc:
            for d in [os.path.dirname(f)] + dirs:
                q = os.path.normpath(os.path.join(d, i))
                if os.path.isfile(q):
                    todo.append(q)
                    break
    return seen


def key(src, *more):
    h = hashlib.sha256()
    for f, x in sorted(closure(src).items()):
        h.update((f + x).encode())
    h.update(open(EXTRACT + '.sha').read().encode() if os.path.exists(EXTRACT + '.sha') else b'')
    for m in more:
        h.update(str(m).encode())
    return h.hexdigest()[:32]


# ------------------------------------------------------------------------------------------- extraction
def includes():
    out = ['-I' + SRC, '-I' + ROOT + '/stubs']
    return out


def extract_one(src):
    """JSON of one translation unit; a content-keyed cache of the mechanical extraction"""
    k = key(src, 'extract')
    out = '%s/x_%s.json' % (CACHE, k)
    if os.path.exists(out):
        return out, ''
    tmp = out + '.%d.tmp' % os.getpid()
    r = sh([EXTRACT, tmp, src, REPO + '/src:' + ROOT + '/tu', '--', '-std=c++17', '-w'] + includes())
    if not os.path.exists(tmp):
        return None, r.stdout[-2000:]
    os.replace(tmp, out)
    return out, r.stdout[-2000:]


def source_path(s):
    return ROOT + '/' + s if s.startswith('tu/') else LIB + '/' + s


# ------------------------------------------------------------------------------------------- native build
def compile_obj(src, flags):
    k = key(src, 'obj', *flags)
    out = '%s/o_%s.o' % (CACHE, k)
    if os.path.exists(out):
        return out, ''
    tmp = out + '.%d.tmp.o' % os.getpid()
    r = sh(['g++', '-std=c++17', '-w', '-c', src, '-o', tmp] + flags + includes() + ['-I' + ROOT + '/drivers'])
    if r.returncode:
        return None, r.stdout[-3000:]
    os.replace(tmp, out)
    return out, ''


def library():
    """every source of the library"""
    out = []
    for d, ds, fs in os.walk(LIB):
        ds.sort()
        out += [d + '/' + f for f in sorted(fs) if f.endswith('.cpp')]
    return out


def build_driver(cfg, work, flavour='asan'):
    opt = ['-O0'] if cfg.get('full') else ['-O1', '-g']
    flags = opt + {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'],
                   'tsan': ['-fsanitize=thread'], 'plain': []}[flavour]
    srcs = [ROOT + '/drivers/' + cfg['driver']]
    if cfg.get('full'):
        # the whole library, on the stand-in of its dependency (first, so that its statics are there)
        srcs = [ROOT + '/stubs/sup_impl.cpp'] + library() + srcs
    else:
        srcs = [source_path(s) for s in cfg.get('link', [])] + srcs
    srcs += [ROOT + '/' + s for s in cfg.get('extra', [])]
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda s: compile_obj(s, flags), srcs))
    for (o, msg), s in zip(objs, srcs):
        if o is None:
            return None, 'does not compile: %s\n%s' % (s, msg)
    exe = work + '/driver_' + flavour
    r = sh(['g++', '-o', exe] + [o for o, _ in objs] + flags + ['-pthread'] + cfg.get('libs', []))
    if r.returncode:
        return None, 'does not link:\n' + r.stdout[-3000:]
    return exe, ''


def run_driver(exe, args, limit, cwd):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:detect_stack_use_after_return=0:abort_on_error=0:exitcode=66' % (0,),
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=66',
               TSAN_OPTIONS='halt_on_error=1:exitcode=66:second_deadlock_stack=1')
    t0 = time.time()
    cmd = [exe] + args
    if 'tsan' in exe and shutil.which('setarch'):
        cmd = ['setarch', os.uname().machine, '-R'] + cmd
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit, env=env,
                           cwd=cwd, errors='replace')
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout if isinstance(ex.stdout, str) else (ex.stdout or b'').decode(errors='replace')
        return dict(status='timeout', out=out[-4000:], err='', stats={}, wall=time.time() - t0)
    stats = {}
    for l in out.splitlines():
        if l.startswith('STATS '):
            stats = json.loads(l[6:])
    fails = [l for l in out.splitlines() if l.startswith('FAIL ')]
    known = [l for l in out.splitlines() if l.startswith('KNOWN ')]
    if fails:
        st = 'fail'
    elif rc == 0 and stats:
        st = 'pass'
    elif 'FATAL: ThreadSanitizer' in err or 'unexpected memory mapping' in err:
        st = 'unavailable'
    elif rc != 0:
        st = 'fail'
        last = [l for l in out.splitlines() if l.startswith('CASE ')]
        m = re.search(r'(ERROR: \w+Sanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|runtime error[^\n]*|terminate called[^\n]*\n[^\n]*)', err)
        fails = ['FAIL %s in %s' % (m.group(1).replace('\n', ' ') if m else 'the real code ended with status %d' % rc,
                                    last[-1][5:] if last else 'the driver')]
    else:
        st = 'unavailable'
    return dict(status=st, out=out[-6000:], err=err[-6000:], stats=stats, fails=fails, known=known, wall=time.time() - t0)


# ------------------------------------------------------------------------------------------- verification
_job = {}


def verify_job(a):
    from engine import verify
    fid, con, opt = a
    prog, aliases = _job['prog'], _job['aliases']
    c = con
    V = verify.FunctionVerifier(prog, fid, c, aliases=aliases, **opt)
    return V.verify()


def targets(prog, prop):
    """(function id, contract) pairs under contract for this property; contracts without function"""
    from engine import verify
    out, missing = [], []
    byq = {}
    for fq, ids in prog.byq.items():
        byq.setdefault(verify.strip_targs(fq), []).extend(ids)
    for q, cs in verify.CONTRACTS.items():
        for c in cs:
            if prop not in c.props:
                continue
            n = 0
            for fid in byq.get(q, []):
                f = prog.funcs[fid]
                if not (f.get('body') or f.get('defaulted')):
                    continue
                if c.nparams is not None and len(f['params']) != c.nparams:
                    continue
                if c.sig and not c.sig(dict(f, params=[x['t'] for x in f['params']])):
                    continue
                if c.abstract:
                    continue
                n += 1
                out.append((fid, c))
            if not n and not c.abstract:
                missing.append(c)
    return out, missing


def run_jobs(jobs, fn=verify_job):
    """verify in separate processes: a crash or a runaway solver costs one function, not the check"""
    if not jobs:
        return []
    res = [None] * len(jobs)
    ctx = multiprocessing.get_context('fork')
    running = {}
    todo = list(range(len(jobs)))[::-1]
    while todo or running:
        while todo and len(running) < JOBS:
            i = todo.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, fn, jobs[i]), daemon=True)
            p.start()
            w.close()
            running[i] = (p, r, time.time())
        done = []
        for i, (p, r, t0) in running.items():
            lim = jobs[i][2].get('budget', 60) * 2 + 30
            if r.poll(0.01):
                try:
                    res[i] = r.recv()
                except EOFError:
                    res[i] = None
                done.append(i)
            elif not p.is_alive() or time.time() - t0 > lim:
                done.append(i)
        for i in done:
            p, r, t0 = running.pop(i)
            if p.is_alive():
                p.kill()
            p.join()
            r.close()
    for i, x in enumerate(res):
        if x is None:
            fid, c, _ = jobs[i]
            res[i] = dict(function=fid, id=fid, contract=c.name, obligations=[], status='undecided',
                          reason='the verifier gave no answer', file='', wall_s=0, solver_s=0, queries=0, paths=0,
                          inlined=[], applied=[], trusted=[], lemmas=[])
    return res


def _child(w, fn, job):
    sys.setrecursionlimit(20000)
    try:
        w.send(fn(job))
    except BaseException as ex:     # noqa
        try:
            fid, c, _ = job
            w.send(dict(function=fid, id=fid, contract=c.name, obligations=[], status='undecided',
                        reason='verifier error: %s: %s' % (type(ex).__name__, ex), file='', wall_s=0, solver_s=0,
                        queries=0, paths=0, inlined=[], applied=[], trusted=[], lemmas=[]))
        except Exception:
            pass
    finally:
        w.close()


def hard(r):
    """obligations refuted on a path that is exactly a path of the code (no loop cut, no approximation)"""
    return [o for o in r['obligations'] if o['result'] == 'refuted' and not o['abstract']]


def open_obl(r):
    return [o for o in r['obligations'] if o['result'] != 'proved']


# ------------------------------------------------------------------------------------------- main
def load_known(prop):
    p = ROOT + '/known_findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main(argv):
    t0 = time.time()
    prop = argv[0]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    verbose = '--verbose' in argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    build_extractor()
    sys.path.insert(0, ROOT)
    from contracts.props import PROPS
    cfg = PROPS[prop]
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        rc = run(prop, cfg, tier, seed, verbose, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    prune_cache()
    return rc


def prune_cache(limit=1500 << 20):
    try:
        fs = [(os.stat(e.path).st_mtime, e.stat().st_size, e.path) for e in os.scandir(CACHE)]
        tot = sum(s for _, s, _ in fs)
        for _, s, p in sorted(fs):
            if tot <= limit:
                break
            os.unlink(p)
            tot -= s
    except OSError:
        pass


def driver_round(cfg, work, tier, seed, deep, box):
    """compile the replay driver against the real code and run it"""
    res = []
    for fl in cfg.get('flavours', ['asan']):
        exe, msg = build_driver(cfg, work, fl)
        if exe is None:
            res.append(dict(status='unavailable', out=msg, err='', stats={}, fails=[], known=[], flavour=fl))
            continue
        args = ['--seed', str(seed), '--mode', 'deep' if deep else 'quick']
        d = work + '/run_' + fl + ('_deep' if deep else '')
        os.makedirs(d, exist_ok=True)
        r = run_driver(exe, args, 300 if tier == 'thorough' or deep else 90, d)
        r['flavour'] = fl
        res.append(r)
    box.append(res)
    return res


def run(prop, cfg, tier, seed, verbose, work, t0):
    from engine import verify
    from engine.ir import Program
    for m in cfg['modules']:
        importlib.import_module('contracts.' + m)
    # the replay driver compiles and runs while the verifier works
    box = []
    pool = ThreadPoolExecutor(1)
    fut = pool.submit(driver_round, cfg, work, tier, seed, tier == 'thorough', box) if cfg.get('driver') else None
    # extraction of the current tree
    srcs = [source_path(s) for s in cfg['tus']]
    with ThreadPoolExecutor(JOBS) as ex:
        xs = list(ex.map(extract_one, [s for s in srcs if os.path.exists(s)]))
    prog = Program()
    notes = []
    for (out, msg), s in zip(xs, [s for s in srcs if os.path.exists(s)]):
        if out is None:
            notes.append('extraction of %s failed: %s' % (s, msg.strip()[-300:]))
            continue
        if prog.add(out):
            notes.append('extraction of %s reported errors: %s' % (s, msg.strip()[-300:]))
    for s in srcs:
        if not os.path.exists(s):
            notes.append('no such source: ' + s)
    ali = ROOT + '/contracts/baseline_fields.json'
    aliases = json.load(open(ali)) if os.path.exists(ali) else {}
    _job['prog'], _job['aliases'] = prog, aliases
    tg, missing = targets(prog, prop)
    budget = 120 if tier == 'thorough' else cfg.get('budget', 60)
    ms = 15000 if tier == 'thorough' else cfg.get('solver_ms', 3000)
    results = run_jobs([(f, c, dict(budget=budget, solver_ms=ms)) for f, c in tg])
    # second look at everything the first pass left open: loops unrolled, so every path is a path of the code
    bad = [i for i, r in enumerate(results) if r['status'] != 'proved']
    second = {}
    if bad:
        if verbose:
            print('open after the first pass:', [results[i]['contract'] for i in bad])
        again = [i for i in bad if not hard(results[i])]
        jobs = [(tg[i][0], tg[i][1], dict(budget=20, solver_ms=2000, unroll=3)) for i in again] \
            + [(tg[i][0], tg[i][1], dict(budget=budget * 2, solver_ms=ms * 2, inv_ms=2500)) for i in again]
        out = run_jobs(jobs)
        for n, i in enumerate(again):
            second[i] = out[n]
            if out[len(again) + n]['status'] == 'proved' and not hard(out[n]):
                # a solver that only needed more time
                results[i] = out[len(again) + n]
        bad = [i for i in bad if results[i]['status'] != 'proved']
    if fut:
        fut.result()
    pool.shutdown()
    dres = box[0] if box else []
    known = load_known(prop)
    fails, knownhits = [], []
    for d in dres:
        for f in d.get('fails') or []:
            fails.append((d, f))
        knownhits += [k[6:] for k in d.get('known') or []]
    if bad and not fails and cfg.get('driver') and tier != 'thorough':
        # an open obligation: search harder for a concrete failing input on the real code
        box2 = []
        driver_round(cfg, work, tier, seed + 1, True, box2)
        for d in box2[0]:
            for f in d.get('fails') or []:
                fails.append((d, f))
        dres = dres + box2[0]
    hards = []
    for i in bad:
        for o in hard(results[i]) + (hard(second[i]) if i in second else []):
            hards.append((results[i], o))
    violation = None
    if fails:
        violation = 'concrete'
    elif hards:
        violation = 'obligation'
    proved = [r for r in results if r['status'] == 'proved']
    undec = [results[i] for i in bad if not (hard(results[i]) or (i in second and hard(second[i])))]
    n_ob = sum(len(r['obligations']) for r in results)
    n_ok = sum(1 for r in results for o in r['obligations'] if o['result'] == 'proved')
    for r in undec:
        if not r['obligations']:
            n_ob += 1       # the function as a whole is one undischarged obligation
    lost = [c for c in missing if not c.implicit_ok]
    n_ob += len(lost)
    if violation:
        path = write_replay(prop, violation, fails, hards, undec, dres, cfg)
    from engine import lemmas
    lem = lemmas.discharge(sorted({l for r in results for l in r.get('lemmas', [])}))
    n_ob += len(lem)
    n_ok += sum(1 for l in lem if l['result'] == 'proved')
    trusted = sorted({t for r in results for t in r.get('trusted', [])})
    complete = not bad and not lost and all(l['result'] == 'proved' for l in lem)
    ev = dict(
        property=prop, tier=tier, seed=seed, level='proof',
        coverage=dict(
            obligations=n_ob, discharged=n_ok,
            checker_cmd='bin/check %s%s' % (prop, ' --thorough' if tier == 'thorough' else ''),
            trusted_base=['engine/ (own verification-condition generator over the clang 18 AST)', 'z3 %s' % z3v(),
                          'extractor/extract.cpp'] + ['assumed contract: ' + t for t in trusted],
            backend='%s (SMT), %d queries, %.1f s' % (' + '.join(sorted({b for r in results for b in r.get('backends', ['z3'])}, reverse=True)),
                                                      sum(r['queries'] for r in results),
                                                      sum(r['solver_s'] for r in results)),
            functions_under_contract=[dict(function=r['id'], file=r['file'], status=r['status'],
                                           obligations=len(r['obligations']),
                                           discharged=sum(1 for o in r['obligations'] if o['result'] == 'proved'),
                                           paths=r['paths'], wall_s=r['wall_s'], exits=r.get('exits', 0),
                                           exits_reachable=r.get('exits_alive', 0),
                                           executed_in_place=r['inlined'], contracts_applied=r['applied'],
                                           reason=r['reason'] or None)
                                      for r in results],
            compiler_generated=[c.name for c in missing if c.implicit_ok],
            lemmas=lem,
            not_proved_bounded_stand_in=[dict(function=r['id'], reason=r['reason'] or 'obligations open: ' + '; '.join(
                sorted({o['label'] for o in open_obl(r)})), stand_in='replay driver on the real code') for r in undec]
            + [dict(function=c.name, reason='function not found', stand_in='replay driver on the real code')
               for c in lost],
            complete=complete,
            cross_check=[dict(driver=cfg.get('driver'), build=d.get('flavour'), status=d['status'], stats=d['stats'])
                         for d in dres],
            notes=notes),
        assumptions=cfg.get('assumptions', []) + COMMON,
        wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    tmp = '%s/%s.json.tmp' % (EVID, prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, '%s/%s.json' % (EVID, prop))
    if verbose:
        for r in results:
            print(r['status'], r['contract'], '%.1fs' % r['wall_s'], r['reason'])
            for o in open_obl(r):
                print('   ', o['result'], 'exact' if not o['abstract'] else 'abstract', o['label'], o['line'])
            if r.get('trace'):
                print(r['trace'])
        for i, r in second.items():
            print('unrolled:', r['status'], r['contract'], r['reason'], [o['label'] for o in hard(r)])
        for d in dres:
            print('driver', d['flavour'], d['status'], d['stats'], d.get('fails'), '%.1fs' % d.get('wall', 0), d['out'][-500:] if d['status'] == 'unavailable' else '')
        for n in notes:
            print('note', n)
    for c, txt in known:
        if any(k.split()[0] == c for k in knownhits):
            print('KNOWN-FINDING: property=%s %s %s' % (prop, c, txt))
    print('%s: %d functions under contract, %d/%d obligations discharged, %d functions not proved, %.1f s'
          % (prop, len(results), n_ok, n_ob, len(undec) + len(lost), time.time() - t0))
    if violation == 'concrete':
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if violation == 'obligation':
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    return 0


COMMON = [
    'the C++ semantics of the engine (engine/interp.py) for the constructs it accepts; anything else is refused',
    'operations of the C++ standard library satisfy the contracts in engine/models.py',
    'allocation does not fail; callbacks supplied by users neither throw nor re-enter the object they are called from',
    'integers of the language are mathematical with overflow of signed arithmetic checked where the code computes',
    'the memory model: data shared between threads is reached under its mutex, which the contracts check per function',
]


def z3v():
    import z3
    return z3.get_version_string()


def write_replay(prop, kind, fails, hards, undec, dres, cfg):
    d = EVID + '/replay'
    os.makedirs(d, exist_ok=True)
    path = '%s/%s.txt' % (d, prop)
    with open(path, 'w') as f:
        f.write('property %s\n' % prop)
        if fails:
            f.write('\nfailing input, on the real code (drivers/%s):\n' % cfg.get('driver'))
            for dd, x in fails[:10]:
                f.write('  ' + x + '\n')
            f.write('\nto replay: bin/replay %s\n' % prop)
        if len(hards) > 12:
            f.write('\n%d failed obligations, the first 12:\n' % len(hards))
        for r, o in hards[:12]:
            f.write('\nfailed obligation: %s\n  function %s\n  contract %s, %s line %s\n  path: %s\n  counterexample: %s\n'
                    % (o['label'], r['id'], r['contract'], o['file'], o['line'], ' / '.join(o.get('path', [])),
                       json.dumps(o.get('model', {}), indent=2)))
        for r in undec:
            f.write('\nundecided: %s: %s\n' % (r['id'], r['reason'] or [o['label'] for o in open_obl(r)]))
        for dd in dres:
            if dd.get('err') and dd['status'] == 'fail':
                f.write('\noutput of the driver:\n' + dd['err'][-5000:] + '\n')
    return path


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
