#!/usr/bin/env python3
"""Build the library from /repo's working tree, run one property's monitors, write the evidence.

  run.py ID [--tier quick|thorough] [--seed N]     run a check
  run.py ID --replay FILE                          run again the single case a replay file names
Exit: 0 held on everything explored; 1 violated (VIOLATION line); 2 no answer."""
import sys, os, json, subprocess, shutil, glob, time, struct, re, threading, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LP_REPO', '/repo')
SRC = REPO + '/src/lpaggreg'
JOBS = 8

PLAIN = dict(name='plain', cxx='g++', flags='-O2 -DNDEBUG -g1 -w', hflags='-O1 -g1 -w', as_mb=3000)
ASAN = dict(name='asan', cxx='g++',
            flags='-O1 -g1 -w -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_DEBUG',
            hflags='-O0 -g1 -w -fsanitize=address -D_GLIBCXX_DEBUG', as_mb=0)
TSAN = dict(name='tsan', cxx='g++', flags='-O1 -g1 -w -fsanitize=thread', as_mb=0)
VALG = dict(name='memcheck', cxx='g++', flags=PLAIN['flags'], as_mb=0,
            runner=['valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes', '--leak-check=full', '--show-leak-kinds=definite,indirect',
                    '--errors-for-leak-kinds=definite,indirect', '--num-callers=18'])
SAN_ENV = dict(ASAN_OPTIONS='exitcode=97:detect_leaks=1:detect_stack_use_after_return=1:check_initialization_order=1:strict_init_order=1:allocator_may_return_null=0:handle_abort=1:abort_on_error=0',
               UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1:exitcode=97',
               TSAN_OPTIONS='exitcode=97:halt_on_error=1:second_deadlock_stack=1', LSAN_OPTIONS='exitcode=97')

def V(v, quick, thorough, **kw):
    d = dict(v); d.update(quick=quick, thorough=thorough); d.update(kw); return d

# multipliers of the base number of cases, per tier
CONF = {
    'C01': [V(PLAIN, 16, 20)], 'C02': [V(PLAIN, 20, 40)], 'C03': [V(PLAIN, 20, 40)], 'C04': [V(PLAIN, 20, 40)], 'C05': [V(PLAIN, 20, 40)],
    'C06': [V(PLAIN, 20, 40)], 'C07': [V(PLAIN, 4, 20)], 'C08': [V(PLAIN, 10, 20)], 'C09': [V(PLAIN, 16, 20)], 'C10': [V(PLAIN, 10, 20)],
    'C11': [V(PLAIN, 20, 40)], 'C12': [V(PLAIN, 20, 40)], 'C13': [V(PLAIN, 16, 20)], 'C14': [V(PLAIN, 20, 40)], 'C15': [V(PLAIN, 10, 20)],
}
LEVEL = {'C19': 'fault_enumeration'}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

if os.path.exists(VERIF + '/conf_extra.py'):
    exec(open(VERIF + '/conf_extra.py').read())

def build_all(prop, variants, bdir):
    """Compile the library once per set of flags and the monitors once per variant, all in parallel; link."""
    inc = ['-I' + SRC + '/headers']
    srcs = sorted(glob.glob(SRC + '/sources/**/*.cpp', recursive=True))
    if not srcs:
        raise BuildError('no source under ' + SRC + '/sources')
    jobs = []; libs = {}
    for vi, var in enumerate(variants):
        d = bdir + '/' + var['name']
        os.makedirs(d, exist_ok=True)
        extra = var['pre'](prop, var, d) if var.get('pre') else []
        var['main'] = d + '/prop.o'
        jobs.append([var['cxx'], '-std=c++17'] + var.get('hflags', var['flags']).split() + inc + ['-I' + VERIF + '/harness'] + extra
                    + ['-c', VERIF + '/harness/props/' + var.get('src', prop.lower()) + '.cpp', '-o', var['main']])
        var['xobj'] = []
        for n, (f, fl) in enumerate(var.get('extra_src', [])):
            var['xobj'].append('%s/x%d.o' % (d, n))
            jobs.append([var['cxx']] + fl.split() + inc + ['-c', f, '-o', var['xobj'][-1]])
    for var in variants:
        k = var['cxx'] + ' ' + var['flags']
        if k not in libs:
            d = '%s/lib%d' % (bdir, len(libs))
            os.makedirs(d)
            libs[k] = []
            for i, s in enumerate(srcs):
                o = '%s/%02d_%s.o' % (d, i, os.path.basename(s)[:-4])
                libs[k].append(o)
                jobs.append([var['cxx'], '-std=c++11'] + var['flags'].split() + inc + ['-c', s, '-o', o])
        var['lib'] = libs[k]
    with ThreadPoolExecutor(JOBS) as ex:
        for r, j in zip(ex.map(lambda j: sh(j), jobs), jobs):
            if r.returncode:
                raise BuildError('compilation failed: ' + ' '.join(j) + '\n' + r.stdout[-6000:])
    exes = []
    for var in variants:
        exe = bdir + '/' + var['name'] + '/prop'
        r = sh([var['cxx']] + var['lib'] + [var['main']] + var['xobj'] + [f for f in var['flags'].split() if f.startswith('-fsan')] + ['-o', exe, '-lpthread'] + var.get('libs', []))
        if r.returncode:
            e = BuildError('link failed\n' + r.stdout[-6000:])
            e.undefined = sorted(set(re.findall(r"undefined reference to `(lpaggreg::[^']*)'", r.stdout)))
            raise e
        exes.append(exe)
    return exes

def exe_cmd(var, exe):
    return list(var.get('runner', [])) + [exe]

def run_proc(cmd, errf, timeout, env):
    rc = run_proc1(cmd, errf, timeout, env)
    if rc not in (0, 98, 'timeout') and 'unexpected memory mapping' in tail(errf):   # ThreadSanitizer and a high-entropy address layout
        rc = run_proc1(['setarch', '-R'] + cmd, errf, timeout, env)
    return rc

def run_proc1(cmd, errf, timeout, env):
    with open(errf, 'wb') as e:
        p = subprocess.Popen(cmd, stdout=e, stderr=e, env=env, start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return 'timeout'

def tail(f, n=6000):
    try:
        b = open(f, 'rb').read()
    except OSError:
        return ''
    if len(b) > n:
        b = b[:n * 2 // 3] + b'\n[...]\n' + b[-n // 3:]
    return b.decode('utf8', 'replace')

def progress(f):
    try:
        b = open(f, 'rb').read(16)
        return struct.unpack('QQ', b)
    except Exception:
        return (0, 0)

def classify(rc, err):
    if rc == 98 or 'CPU-BUDGET-EXCEEDED' in err: return 'hang'
    if rc == 97: return 'report'
    if rc == -9: return 'killed'
    if rc == 'timeout': return 'timeout'
    if isinstance(rc, int) and rc < 0: return 'crash'
    return 'error'

def known():
    """open entries: open: property=<id> key=<key> match=<text the witness contains> :: what fails"""
    r = []
    f = VERIF + '/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'open:\s+property=(\S+)\s+key=(\S+)\s+match=(.*?)\s+::\s*(.*)', l.strip())
            if m: r.append(m.groups())
    return r

def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1); replay = None; keep = False; mult = 1.0
    i = 0
    while i < len(args):
        a = args[i]
        if a == '--tier': i += 1; tier = args[i]
        elif a == '--seed': i += 1; seed = int(args[i])
        elif a == '--replay': i += 1; replay = args[i]
        elif a == '--mult': i += 1; mult = float(args[i])
        elif a == '--keep': keep = True
        else: print('unknown argument', a); return 2
        i += 1
    if tier not in ('quick', 'thorough') or prop not in CONF:
        print('unknown tier or property'); return 2
    t0 = time.time()
    edir = os.environ.get('LP_EVID', VERIF + '/evidence')
    os.makedirs(edir + '/replay', exist_ok=True)
    evf = '%s/%s.json' % (edir, prop)
    if not replay and os.path.exists(evf): os.remove(evf)
    bdir = os.environ.get('LP_BUILD', VERIF + '/build') + '/' + prop
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    env = dict(os.environ); env.update(SAN_ENV); env['LC_ALL'] = 'C'
    violations = []   # (key, msg, replay dict)
    notes = []; noanswer = []
    counters = {}; hashes = set(); samples = []; evaluations = 0; rule = ''; per_variant = {}
    rp = json.load(open(replay)) if replay else None
    budget = 600 if tier == 'quick' else 6 * 3600
    variants = [v for v in CONF[prop] if rp is None or v['name'] == rp['variant']]
    try:
        built = build_all(prop, variants, bdir)
    except BuildError as e:
        print(str(e))
        if prop == 'C20' and getattr(e, 'undefined', None):
            violations.append(('link', 'documented operations the library does not provide: ' + ', '.join(e.undefined), dict(variant='plain', seed=seed, case=-1)))
            variants = []; built = []
        else:
            print('NO-ANSWER property=%s: the check could not be built' % prop)
            return 2
    tb = time.time()
    lock = threading.Lock()

    def account(v, j):
        nonlocal evaluations, rule
        with lock:
            rule = j['rule']; evaluations += j['evaluations']
            pv = per_variant.setdefault(v['name'], {'cases': 0, 'evaluations': 0})
            pv['cases'] += j['cases']; pv['evaluations'] += j['evaluations']
            for k, x in j['counters'].items():
                counters[k] = max(counters.get(k, 0), x) if k.startswith('max ') else counters.get(k, 0) + x
            hashes.update(j['hashes'])
            for s in j['samples']:
                if len(samples) < 6 and s not in samples: samples.append(s)

    def case_of(msg):
        m = re.match(r'case (\d+):', msg)
        return int(m.group(1)) if m else -1

    def one(v, exe, cmdbase, only, cpu, tag):
        out = '%s/%s.only%s.json' % (bdir, v['name'], tag); err = out[:-5] + '.err'; pr = out[:-5] + '.prog'
        if os.path.exists(out): os.remove(out)
        rc = run_proc(cmdbase + ['--only', str(only), '--cpu', str(cpu), '--out', out, '--progress', pr], err, 3600 if tier == 'thorough' else 400, env)
        return rc, out, err, pr

    def shard(v, exe, s, ns):
        m = v[tier] * mult
        base = exe_cmd(v, exe) + ['--seed', str(seed), '--tier', tier, '--mult', '%g' % m, '--as', str(v['as_mb'])]
        cpu = v.get('cpu', 40)
        out = '%s/%s.%d.json' % (bdir, v['name'], s); err = out[:-5] + '.err'; pr = out[:-5] + '.prog'
        rc = run_proc(base + ['--shard', str(s), '--nshards', str(ns), '--cpu', str(cpu), '--out', out, '--progress', pr, '--wall', str(v.get('wall', {}).get(tier, 240 if tier == 'quick' else 3 * 3600))], err, budget, env)
        if rc in (0, 97) and os.path.exists(out) and os.path.getsize(out):
            j = json.load(open(out))
            account(v, j)
            for x in j['violations']:
                violations.append((x['key'], x['msg'], dict(variant=v['name'], seed=seed, tier=tier, case=case_of(x['msg']), mult=m)))
            if rc == 0: return
        et = tail(err)
        kind = classify(rc, et)
        idx, done = progress(pr)
        c = idx - 1
        counters['shards ended early'] = counters.get('shards ended early', 0) + 1
        rep = dict(variant=v['name'], seed=seed, tier=tier, case=c, mult=m)
        if kind == 'report':
            # a sanitizer's report is a witness by itself; find the single case for the replay when possible
            if c < 0:
                rep['case'] = None; rep['shard'] = s; rep['nshards'] = ns
            violations.append(('report', 'case %s: %s' % (c if c >= 0 else '(at exit)', et), rep)); return
        if kind in ('killed', 'timeout') or c < 0:
            noanswer.append('shard %d ended with %s at case %d: %s' % (s, rc, c, et[-1500:])); return
        if kind == 'error' and rc == 3:
            noanswer.append('shard %d: harness error: %s' % (s, et[-1500:])); return
        rc2, o2, e2, p2 = one(v, exe, base, c, cpu * 3 if kind == 'hang' else cpu, '%d' % s)
        et2 = tail(e2); k2 = classify(rc2, et2)
        if rc2 == 0:
            j = json.load(open(o2))
            if j['violations']:
                x = j['violations'][0]; violations.append((x['key'], x['msg'], rep)); return
            if kind == 'crash':  # may need the cases before it: run the shard again
                rc3 = run_proc(base + ['--shard', str(s), '--nshards', str(ns), '--cpu', str(cpu), '--out', o2, '--progress', p2], e2, budget, env)
                if isinstance(rc3, int) and rc3 < 0 and rc3 != -9:
                    rep['shard'] = s; rep['nshards'] = ns
                    violations.append(('crash', 'signal %d after the cases before case %d of shard %d: %s' % (-rc3, progress(p2)[0] - 1, s, tail(e2)), rep)); return
            if kind == 'hang':  # slow, not endless: run the shard again with the larger budget
                if os.path.exists(out): os.remove(out)
                rc = run_proc(base + ['--shard', str(s), '--nshards', str(ns), '--cpu', str(cpu * 3), '--out', out, '--progress', pr], err, budget, env)
                if rc in (0, 97) and os.path.exists(out) and os.path.getsize(out):
                    j = json.load(open(out))
                    account(v, j)
                    for x in j['violations']:
                        violations.append((x['key'], x['msg'], dict(variant=v['name'], seed=seed, tier=tier, case=case_of(x['msg']), mult=m)))
                    if rc == 0: return
            noanswer.append('case %d ended with %s once and normally when run alone' % (c, rc)); return
        if k2 in ('killed', 'timeout') or rc2 == 3:
            noanswer.append('case %d ended with %s, then %s' % (c, rc, rc2)); return
        what = {'hang': 'did not end within %d s of processor time' % (cpu * 3), 'crash': 'ended by signal %s' % (-rc2 if isinstance(rc2, int) else rc2), 'report': 'sanitizer report', 'error': 'ended with status %s' % rc2}[k2]
        violations.append((k2, 'case %d: the run %s\n%s' % (c, what, et2), rep))

    if rp:
        v = variants[0]; exe = built[0]
        base = exe_cmd(v, exe) + ['--seed', str(rp['seed']), '--tier', rp['tier'], '--mult', '%g' % rp['mult'], '--as', str(v['as_mb']), '-v']
        if rp.get('case') is not None and rp.get('shard') is None: base += ['--only', str(rp['case'])]
        else: base += ['--shard', str(rp['shard']), '--nshards', str(rp['nshards'])]
        return subprocess.call(base, env=env)

    for v, exe in zip(variants, built):
        ns = v.get('shards', JOBS); tv = time.time()
        par = v.get('par', JOBS)
        with ThreadPoolExecutor(par) as ex:
            for f in [ex.submit(shard, v, exe, s, ns) for s in range(ns)]: f.result()
        per_variant.setdefault(v['name'], {})['flags'] = v['flags']; per_variant[v['name']]['run_s'] = round(time.time() - tv, 1)

    open_kf = [k for k in known() if k[0] == prop]
    new = []; hit = set()
    for key, msg, rep in violations:
        m = [k for k in open_kf if k[1] == key and k[2] in msg]
        if m: hit.update(x[3] for x in m)
        else: new.append((key, msg, rep))
    for k in open_kf: print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    nontriv = len(hashes)
    cov = dict(evaluations=evaluations, distinct_nontrivial=nontriv, rule=rule, samples=[s[:3000] for s in samples],
               observed=dict(sorted(counters.items())), builds=per_variant)
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, 'exploration'), coverage=cov,
              assumptions=ASSUME.get(prop, []) + ASSUME['*'], wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(evf, 'w'), indent=1)
    if not keep: shutil.rmtree(bdir, ignore_errors=True)
    for n, (key, msg, rep) in enumerate(new[:5]):
        path = '%s/replay/%s-%d.json' % (edir, prop, n)
        rep = dict(rep, property=prop, key=key, witness=msg, how='python3 %s/run.py %s --replay %s' % (VERIF, prop, path))
        json.dump(rep, open(path, 'w'), indent=1)
        print(msg[:4000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, build %.1fs, total %.1fs' % (prop, tier, seed, evaluations, nontriv, len(new), tb - t0, time.time() - t0))
    if new: return 1
    if noanswer:
        for x in noanswer: print('NO-ANSWER property=%s: %s' % (prop, x))
        return 2
    if evaluations == 0 or nontriv == 0:
        print('NO-ANSWER property=%s: nothing was observed' % prop); return 2
    return 0

ASSUME = {
    '*': ['g++ 13 / glibc on x86-64; long double is the 80-bit x87 format', 'the reference definitions in harness/oracle.hpp and the property file state the property correctly'],
}

if __name__ == '__main__':
    sys.exit(main())
