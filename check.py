#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--proof NAME] [-v]

Regenerates the IR of /repo's current source, generates and discharges the verification conditions of every proof function of the
property, and reports.  exit 0: every obligation discharged; exit 1: VIOLATION; exit 2: the tool could not decide."""
import sys, os, re, json, time, subprocess, shutil, tempfile, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
VTPY = '/opt/veriftools/pyvenv/bin/python3'
if os.environ.get('VC_PY') != '1':
    os.environ['VC_PY'] = '1'
    py = shutil.which('python3-vt') or VTPY
    os.execv(py, [py, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.setrecursionlimit(50000)
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor, as_completed, wait, FIRST_COMPLETED
import multiprocessing as mp

REPO = os.environ.get('VC_REPO', '/repo')
DEFS = ('-DDEBUG -DHAVE_ABI_FORCE_UNWIND=1 -DHAVE_ATOMIC_BUILTINS=1 -DHAVE_ICU_I18N=1 -DHAVE_POSIX_SPAWN=1 -DHAVE_POSIX_THREADS=1 -DHAVE_PTHREAD_SETNAME '
        '-DHAVE_SYNC_AAF=1 -DHAVE_SYNC_EAA_EXT=1 -DPLATFORM_POSIX=1 -DPOSIX_HAVE_MONOTONIC_TIMER=1 -DSTINGRAYKIT_HAS_THREAD_KEYWORD=1 '
        '-DSTINGRAYKIT_USES_GCC_VISIBILITY=1 -DSTINGRAY_DEFAULT_LOGLEVEL=Info -DU_STATIC_IMPLEMENTATION=1 -D_REENTRANT=1 -DSTINGRAY_LIB_SOURCE').split()
COMMON = ['-std=gnu++14', '-w', '-fno-strict-aliasing', '-fwrapv', '-fno-delete-null-pointer-checks', '-I' + REPO, '-I' + VERIF + '/include']
IRFLAGS = COMMON + ['-O1', '-Xclang', '-disable-llvm-passes', '-include', VERIF + '/include/vc_cfg.h', '-gline-tables-only', '-emit-llvm', '-c']
NATFLAGS = COMMON + ['-DVC_NATIVE', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class ToolError(Exception):
    pass


def irdump():
    exe = VERIF + '/build/irdump'
    src = VERIF + '/engine/dumper.cpp'
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(VERIF + '/build', exist_ok=True)
        cx = [x for x in sh(['llvm-config-18', '--cxxflags']).stdout.split() if not x.startswith('-std=')]
        ld = sh(['llvm-config-18', '--ldflags']).stdout.split()
        tmp = exe + '.%d' % os.getpid()
        r = sh(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-w'] + cx + [src, '-o', tmp] + ld + ['-lLLVM-18'])
        if r.returncode:
            raise ToolError('building irdump failed:\n' + r.stdout[-3000:])
        os.rename(tmp, exe)
    return exe


def harness_files(prop):
    r = []
    for f in sorted(os.listdir(VERIF + '/proofs')):
        if f.endswith('.cpp') and f.split('_')[0] == prop:
            r.append(os.path.join(VERIF, 'proofs', f))
    return r


def meta(path):
    m = dict(sources=['rt/stdrt.cpp'], opaque=[], replace=[], opts={}, assume=[], flags=[], nocut=[])
    for l in open(path):
        k = re.match(r'// @(\w+): *(.*)', l)
        if not k:
            continue
        n, v = k.group(1), k.group(2).strip()
        if n == 'sources':
            m['sources'] += v.split()
        elif n == 'opaque':
            m['opaque'].append(v)
        elif n == 'replace':
            a, b = v.split('=>')
            m['replace'].append((a.strip(), b.strip()))
        elif n == 'opt':
            a, b = v.split('=')
            m['opts'][a.strip()] = json.loads(b)
        elif n == 'assume':
            m['assume'].append(v)
        elif n == 'nocut':
            m['nocut'].append(v)
        elif n == 'flags':
            m['flags'] += v.split()
    return m


def build_ir(path, tmp):
    m = meta(path)
    name = os.path.basename(path)[:-4]
    d = os.path.join(tmp, name)
    os.makedirs(d, exist_ok=True)
    jobs = [(path, d + '/h.bc')]
    for s in m['sources']:
        p = os.path.join(REPO, 'stingraykit', s)
        if not os.path.exists(p):
            p = os.path.join(VERIF, s)
        jobs.append((p, d + '/' + s.replace('/', '_') + '.bc'))
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: sh(['clang++'] + DEFS + IRFLAGS + m['flags'] + [j[0], '-o', j[1]]), jobs))
    for (s, o), r in zip(jobs, rs):
        if r.returncode:
            raise ToolError('compiling %s failed:\n%s' % (s, r.stdout[-3000:]))
    cut = [l for l in open(VERIF + '/engine/cut.txt').read().rstrip('\n').split('\n') if l not in m['nocut']] + m['opaque'] + [a for a, b in m['replace']]
    open(d + '/cut.txt', 'w').write('\n'.join(cut) + '\n')
    r = sh([irdump(), d + '/h.json', d + '/cut.txt', open(VERIF + '/engine/passes.txt').read().strip()] + [o for s, o in jobs], env=dict(os.environ, VC_INIT=m['opts'].get('init', '')))
    if r.returncode:
        raise ToolError('irdump failed on %s:\n%s' % (name, r.stdout[-3000:]))
    return d + '/h.json', m


_mod = {}


def run_proof(js, name, m, tier, seed):
    import execu, z3
    z3.set_param('smt.random_seed', seed & 0x7fffffff)
    if js not in _mod:
        _mod.clear()
        _mod[js] = execu.Module(js)
    cut = [l for l in open(VERIF + '/engine/cut.txt').read().split('\n') if l and not l.startswith('#') and l not in m['nocut']]
    o = dict(opaque=cut + m['opaque'], replace=m['replace'])
    o.update(m['opts'])
    if tier == 'thorough':
        o['vc_timeout'] = 4 * o.get('vc_timeout', 30)
        o['timeout'] = 4 * o.get('timeout', 300)
        o['crosscheck'] = True
    e = execu.Exec(_mod[js], o)
    err = None
    t = time.time()
    try:
        e.run('vcproof__' + name)
    except execu.EngineError as x:
        err = str(x)
    except RecursionError:
        err = 'recursion limit'
    except Exception as x:
        import traceback
        err = 'internal: ' + traceback.format_exc()[-1500:]
    return dict(proof=name, err=err, vcs=e.vcs, covers=e.covers, bounded=e.bounded, used=sorted(e.used), functions=sorted(e.functions), stats=e.stats,
                backends=e.backends, loops=e.loops_cut, wall=time.time() - t, crosscheck=getattr(e, 'crossres', None),
                violations=[dict(label=v.label, kind=v.kind, where=v.where, vals=v.vals, notes=v.notes) for v in e.violations])


# ------------------------------------------------------------------ native replay
def native(path, tmp):
    """the proof functions over the natively compiled real library; None when it cannot be built"""
    d = os.path.join(tmp, 'native')
    lib = d + '/lib.a'
    if not os.path.exists(lib):
        os.makedirs(d, exist_ok=True)
        srcs = []
        for r, _, fs in os.walk(REPO + '/stingraykit'):
            srcs += [os.path.join(r, f) for f in fs if f.endswith('.cpp')]
        jobs = [(s, d + '/' + os.path.relpath(s, REPO).replace('/', '_') + '.o') for s in srcs]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: sh(['clang++'] + DEFS + NATFLAGS + ['-c', j[0], '-o', j[1]]), jobs))
        objs = [o for s, o in jobs if os.path.exists(o)]
        sh(['ar', 'rcs', lib] + objs)
    exe = d + '/' + os.path.basename(path)[:-4]
    if not os.path.exists(exe):
        r = sh(['clang++'] + DEFS + NATFLAGS + meta(path)['flags'] + [path, VERIF + '/native/vc_native.cpp', '-o', exe, lib, '-Wl,--unresolved-symbols=ignore-all', '-licui18n', '-licuuc', '-licudata', '-lpthread', '-lrt', '-ldl'])
        if r.returncode:
            print('native build of %s failed: %s' % (path, r.stdout[-1500:]))
            return None
    return exe


def write_vals(p, vals):
    with open(p, 'w') as f:
        for v in vals:
            if v[0] == 'v':
                f.write('v %d %d\n' % (v[1], v[2]))
            elif v[0] == 'b':
                f.write('b %d %s\n' % (len(v[1]), ' '.join(map(str, v[1]))))
            else:
                f.write('b 0\n')


def replay(exe, valfile, proof):
    try:
        r = subprocess.run([exe, 'replay', valfile, proof], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
        return r.returncode, r.stdout.decode('latin1')
    except subprocess.TimeoutExpired:
        return 1, 'REPLAY-FAILED timeout'


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--proof')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if a.setup:
        irdump()
        return 0
    files = harness_files(a.prop)
    if not files:
        print('no proofs for', a.prop)
        return 2
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % a.prop)
    try:
        return check(a, files, tmp, seed, t0)
    except ToolError as x:
        print('ERROR (undecided): %s' % x)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


DEADLINE = 650


def failed_result(n, err):
    return dict(proof=n, err=err, vcs={}, covers={}, bounded=[], used=[], functions=[], stats=dict(queries=0, solver_s=0, paths=0, steps=0, vcs=0), backends={}, loops=[], wall=0, violations=[], crosscheck=None)


def check(a, files, tmp, seed, t0):
    irdump()
    with ThreadPoolExecutor(4) as ex:
        irs = list(ex.map(lambda f: build_ir(f, tmp), files))
    jobs = []
    labels = {}
    for f, (js, m) in zip(files, irs):
        txt = open(f).read()
        names = [x['n'][9:] for x in json.load(open(js))['funcs'] if x['n'].startswith('vcproof__')]
        for n in sorted(names):
            if a.proof and a.proof not in n:
                continue
            jobs.append((f, js, n, m))
    if not jobs:
        raise ToolError('no obligations generated')
    res = []
    known = load_known(a.prop)
    ex = ProcessPoolExecutor(8, mp_context=mp.get_context('fork'))
    futs = {ex.submit(run_proof, js, n, m, a.tier, seed): (f, n) for f, js, n, m in jobs}
    pending = set(futs)
    found = None            # a violation is there: the rest gets two more minutes
    while pending:
        done, pending = wait(pending, timeout=5, return_when=FIRST_COMPLETED)
        for fu in done:
            f, n = futs[fu]
            try:
                r = fu.result()
            except Exception as x:
                r = failed_result(n, 'worker died: %r' % x)
            r['file'] = f
            res.append(r)
            if found is None and any(not match_known(known, n, v['label']) for v in r['violations']):
                found = time.time()
        late = time.time() - t0 > (DEADLINE if a.tier != 'thorough' else 100 * DEADLINE)
        if pending and (late or found and time.time() - found > 120):
            for fu in pending:
                if not found:
                    f, n = futs[fu]
                    res.append(dict(failed_result(n, 'not finished within %d s' % DEADLINE), file=f))
            for p in list(ex._processes.values()):
                p.kill()
            break
    ex.shutdown(wait=False, cancel_futures=True)
    # undecided for lack of time (a busy machine): once more with more time
    again = [(f, js, n, m) for f, js, n, m in jobs for r in res if r['proof'] == n and r['file'] == f and not r['err'] and not r['violations'] and any(d['unknown'] for d in r['vcs'].values())]
    if again and not found and time.time() - t0 < 350:
        with ProcessPoolExecutor(min(8, len(again)), mp_context=mp.get_context('fork')) as ex:
            futs = {ex.submit(run_proof, js, n, dict(m, opts=dict(m['opts'], vc_timeout=4 * m['opts'].get('vc_timeout', 30))), a.tier, seed + 1): (f, n) for f, js, n, m in again}
            for fu in as_completed(futs):
                try:
                    r = fu.result()
                except Exception:
                    continue
                f, n = futs[fu]
                r['file'] = f
                if not r['err']:
                    res = [x for x in res if not (x['proof'] == n and x['file'] == f)] + [r]
    res.sort(key=lambda r: r['proof'])
    # ---- verdict
    viol, errs = [], []
    nob = ndis = nvc = nvcd = 0
    nb = nbd = 0
    for r in res:
        bounded = bool(r['bounded'])
        for l, d in r['vcs'].items():
            ok = d['failed'] == 0 and d['unknown'] == 0
            if bounded:
                nb += 1
                nbd += ok
            else:
                nob += 1
                ndis += ok and not r['err']
            nvc += d['discharged'] + d['failed'] + d['unknown']
            nvcd += d['discharged']
            if d['failed']:
                vs = [v for v in r['violations'] if v['label'] == l]
                viol.append((r, l, vs))
            elif d['unknown']:
                errs.append('%s: obligation "%s" undecided (%d conditions, solver gave no answer)' % (r['proof'], l, d['unknown']))
        if r['err']:
            errs.append('%s: %s' % (r['proof'], r['err']))
        for l, s in r['covers'].items():
            if s == 'unsat':
                errs.append('%s: vacuous, cover "%s" unreachable' % (r['proof'], l))
        if not r['err'] and not r['vcs']:
            errs.append('%s: vacuous, no obligation generated' % r['proof'])
        src = open(r['file']).read()
        mm = re.search(r'PROOF\(%s\)(.*?)(?=\n\}|\n[^ \t\n{]|\Z)' % re.escape(r['proof']), src, re.S)
        if mm and not r['err']:
            for l in re.findall(r'(?:ENSURES|COVER)\("([^"]+)"', mm.group(1)):
                if l not in r['vcs'] and l not in r['covers'] and not any(v[0] is r for v in viol):
                    errs.append('%s: vacuous, obligation "%s" never reached' % (r['proof'], l))
        if a.v:
            print('%-40s %6.2fs paths %d queries %d solver %.1fs %s' % (r['proof'], r['wall'], r['stats']['paths'], r['stats']['queries'], r['stats']['solver_s'], r['err'] or ''))
            for l, d in r['vcs'].items():
                print('      %-60s %s' % (l, {k: (round(v, 2) if isinstance(v, float) else v) for k, v in d.items() if v}))
            print('      covers', r['covers'], 'loops', r['loops'], 'backends', r['backends'])
    out = []
    nviol = 0
    if viol:
        out, nviol = report_violations(a, viol, tmp, seed, known)
    # ---- undecided: search for a failing input on the real code before giving up
    if errs and not nviol and not a.no_native:
        nv = fallback_search(a, res, errs, tmp, seed, out, known)
        nviol += nv
    if errs and not nviol:
        # the verifier does not accept an obligation on the current source and no input was found that breaks the code
        os.makedirs(VERIF + '/replays', exist_ok=True)
        t = '%s/replays/%s_unproved.txt' % (VERIF, a.prop)
        open(t, 'w').write('property %s\nobligations the verifier could not discharge on the current source:\n%s\n' % (a.prop, '\n'.join(errs)))
        for e in errs[:20]:
            out.append('not discharged: ' + e.split('\n')[0])
        out.append('VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, t))
        nviol += 1
    for k in known.get('printed', []):
        print(k)
    evidence(a, res, seed, t0, nob, ndis, nvc, nvcd, nb, nbd, nviol, errs)
    for o in out:
        print(o)
    print('%s: %d/%d obligations discharged (%d/%d verification conditions), %d/%d bounded obligations held, %d proof functions, %.1fs' % (a.prop, ndis, nob, nvcd, nvc, nbd, nb, len(res), time.time() - t0))
    if nviol:
        return 1
    return 2 if errs else 0


def load_known(prop):
    r = dict(entries=[], printed=[])
    p = VERIF + '/known-findings.json'
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k.get('property') == prop and k.get('status') == 'known':
                r['entries'].append(k)
    return r


def match_known(known, proof, label):
    for k in known['entries']:
        if k.get('proof') == proof and k.get('obligation') == label:
            return k
    return None


def report_violations(a, viol, tmp, seed, known):
    out = []
    n = 0
    rd = VERIF + '/replays'
    os.makedirs(rd, exist_ok=True)
    for r, label, vs in viol:
        k = match_known(known, r['proof'], label)
        if k:
            line = 'KNOWN-FINDING: property=%s %s' % (a.prop, k['what'])
            if line not in known['printed']:
                known['printed'].append(line)
            continue
        n += 1
        base = '%s/%s_%s_%s' % (rd, a.prop, r['proof'], hashlib.sha1(label.encode()).hexdigest()[:8])
        confirmed = None
        text = ['property %s' % a.prop, 'proof %s' % r['proof'], 'failed obligation: %s' % label]
        exe = None if a.no_native or n > 6 else native(r['file'], tmp)
        for v in vs:
            text.append('counterexample of the verifier: inputs %s notes %s' % (json.dumps(v['vals'])[:3000], v['notes']))
            text.append('at: ' + ' <- '.join(v['where']))
            if exe and not confirmed:
                vf = base + '.vals'
                write_vals(vf, v['vals'])
                rc, o = replay(exe, vf, r['proof'])
                text.append('replayed on the real code: %s' % o[-1500:])
                if rc == 1 and 'REPLAY-FAILED' in o and not out_of_memory(o):
                    confirmed = vf
        if exe and not confirmed:
            vf = base + '.vals'
            try:
                p = subprocess.run([exe, 'random', str(seed), '20', r['proof'], vf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                o = p.stdout.decode('latin1')
                text.append('random search on the real code: ' + o[-800:])
                if p.returncode == 1 and 'REPLAY-FAILED' in o and not out_of_memory(o):
                    rc, o2 = replay(exe, vf, r['proof'])
                    if rc == 1:
                        confirmed = vf
            except subprocess.TimeoutExpired:
                pass
        text.append('to replay: cd /verif && ./check.py %s --proof %s   (inputs: %s)' % (a.prop, r['proof'], confirmed))
        open(base + '.txt', 'w').write('\n'.join(text) + '\n')
        out.append('obligation failed: %s / %s' % (r['proof'], label))
        out.append('VIOLATION property=%s replay=%s%s' % (a.prop, base + '.txt', '' if confirmed else ' no-failing-input-found'))
    # confirmed first; when something is confirmed drop the unconfirmed duplicates
    vl = [o for o in out if o.startswith('VIOLATION')]
    conf = [o for o in vl if not o.endswith('no-failing-input-found')]
    if conf:
        out = [o for o in out if not (o.startswith('VIOLATION') and o.endswith('no-failing-input-found'))]
    return out, n


def out_of_memory(o):
    # allocation is taken to succeed: an input too large for the sanitizer's allocator shows nothing
    return 'out of memory' in o or 'out-of-memory' in o or 'allocation-size-too-big' in o or 'calloc-overflow' in o


def fallback_search(a, res, errs, tmp, seed, out, known):
    rd = VERIF + '/replays'
    os.makedirs(rd, exist_ok=True)
    n = 0
    bad = [r for r in res if r['err'] or any(d['unknown'] for d in r['vcs'].values())]
    for r in bad[:6]:
        exe = native(r['file'], tmp)
        if not exe:
            continue
        vf = '%s/%s_%s_search.vals' % (rd, a.prop, r['proof'])
        try:
            p = subprocess.run([exe, 'random', str(seed), '20', r['proof'], vf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            continue
        o = p.stdout.decode('latin1')
        if p.returncode == 1 and 'REPLAY-FAILED' in o and not out_of_memory(o):
            lab = re.search(r'REPLAY-FAILED (.*)', o).group(1)
            if match_known(known, r['proof'], lab):
                continue
            t = vf[:-5] + '.txt'
            open(t, 'w').write('property %s\nproof %s\nobligation undecided by the verifier: %s\nfailing input found by search on the real code: %s\n%s\n' % (a.prop, r['proof'], r['err'], vf, o[-2000:]))
            out.append('VIOLATION property=%s replay=%s' % (a.prop, t))
            n += 1
    return n


def level_of(prop):
    return json.load(open(VERIF + '/tools/notes.json'))['levels'].get(prop, 'proof')


def evidence(a, res, seed, t0, nob, ndis, nvc, nvcd, nb, nbd, nviol, errs):
    be = {}
    used, fns, loops = set(), set(), []
    for r in res:
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
        used |= set(r['used'])
        fns |= set(r['functions'])
        loops += r['loops']
    real = sorted(f for f in fns if f.startswith('stingray::') or ' stingray::' in f)
    asm = ['clang 18 front end and the listed LLVM passes preserve the meaning of the source', 'signed overflow wraps (-fwrapv); -ffast-math not modelled',
           'allocation of up to 2^47 bytes succeeds; addresses of distinct live objects are distinct', 'sequential execution: mutex operations only keep a lock count, atomics are plain accesses']
    for r in res:
        for x in meta(r['file'])['assume']:
            if x not in asm:
                asm.append(x)
    ev = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level=level_of(a.prop), wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=asm,
              coverage=dict(explanation='contracts on the real functions; %d obligations discharged without bound, %d of %d bounded obligations held, all by SMT on IR of the current source' % (ndis, nbd, nb), obligations=nob, discharged=ndis, checker_cmd='./check.py %s' % a.prop,
                            trusted_base=['clang/LLVM 18 (front end, %s)' % open(VERIF + '/engine/passes.txt').read().strip(), 'engine/*.py VC generator', 'z3', 'cvc5', 'models of libc/libstdc++/pthread externals in engine/models.py'] + sorted(used),
                            verification_conditions=nvc, verification_conditions_discharged=nvcd, discharged_by=be,
                            bounded_obligations=nb, bounded_obligations_held=nbd,
                            bounds=sorted({b for r in res for b in r['bounded']}),
                            proof_functions=[dict(name=r['proof'], bounded=bool(r['bounded']), obligations=sorted(r['vcs']), paths=r['stats']['paths'], solver_s=round(r['stats']['solver_s'], 2), covers=r['covers'], error=r['err']) for r in res],
                            functions_under_contract=real, solver_queries=sum(r['stats']['queries'] for r in res), solver_s=round(sum(r['stats']['solver_s'] for r in res), 2),
                            loops_cut=loops, undecided=errs[:20]))
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % a.prop, 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
