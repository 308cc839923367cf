#!/usr/bin/env python3
"""Runner of the FreeCoAP runtime-monitoring checks.

  run.py <property> [--tier quick|thorough] [--seed N]

Rebuilds the harnesses the property needs from /repo's working tree, runs their modes (sharded over
the cores), turns monitor reports and sanitizer deaths into keyed violations, compares them with
known_findings.txt, and writes evidence/<property>.json.  Exit 0: held; 1: VIOLATION line printed;
2: the machinery could not run."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import jobs as J

BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
REPL = os.path.join(HERE, 'replays')
NCPU = os.cpu_count() or 8

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=78',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0:second_deadlock_stack=1:history_size=4',
    'LSAN_OPTIONS': 'exitcode=79',
    'LC_ALL': 'C',
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def build_target(name):
    """compile one target; every object is rebuilt from /repo's current sources"""
    t = J.TARGETS[name]
    bd = os.path.join(BUILD, name)
    os.makedirs(bd, exist_ok=True)
    cc = t.get('cc', 'gcc')
    flags = list(t['flags'])
    objs, cmds = [], []
    for i, s in enumerate(t['src']):
        xf = []
        if isinstance(s, tuple):
            s, xf = s[0], list(s[1])
        path = s.replace('REPO/', REPO + '/')
        if not path.startswith('/'):
            path = os.path.join(HERE, 'src', path)
        o = os.path.join(bd, '%02d_%s.o' % (i, os.path.basename(path).replace('.c', '')))
        fl = [f.replace('REPO/', REPO + '/') for f in flags + xf]
        cmds.append([cc] + fl + ['-I', os.path.join(HERE, 'src'), '-c', path, '-o', o])
        objs.append(o)
    exe = os.path.join(bd, name)
    with ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(sh, cmds):
            if r.returncode:
                return None, ' '.join(r.args) + '\n' + r.stdout
    for post in t.get('post', []):
        args = [a.replace('BD/', bd + '/') for a in post]
        r = sh(args)
        if r.returncode:
            return None, ' '.join(args) + '\n' + r.stdout
    r = sh([cc] + [f for f in flags if f.startswith('-f') or f.startswith('-g') or f.startswith('-m')] + objs + t.get('ld', []) + ['-o', exe])
    if r.returncode:
        return None, r.stdout
    return exe, ''


def norm_fn(s):
    return re.sub(r'[^A-Za-z0-9_.:+-]', '_', s)


def san_key(text):
    """key of a sanitizer death: kind + the first frame in the code under test"""
    kind = None
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer|MemorySanitizer): ([a-zA-Z-]+)', text)
    if m:
        kind = m.group(2)
        if m.group(1) == 'LeakSanitizer':
            kind = 'leak'
        if kind == 'attempting':
            kind = 'bad-free'
    m2 = re.search(r'WARNING: (ThreadSanitizer|MemorySanitizer): ([a-zA-Z -]+?)( \(|\n)', text)
    if not kind and m2:
        kind = m2.group(2).strip().replace(' ', '-')
    m3 = re.search(r'runtime error: (.*)', text)
    if not kind and m3:
        kind = 'ub-' + norm_fn('-'.join(m3.group(1).split()[:3]))
    if not kind:
        return None
    fn = ''
    for m in re.finditer(r'#\d+ (?:0x[0-9a-f]+ in )?(\S+) (\S*' + re.escape(REPO) + r'/\S+)', text):
        fn = m.group(1)
        break
    return 'san:%s:%s' % (norm_fn(kind), norm_fn(fn) or 'unknown')


class Shard:
    pass


STOP = []   # a hang was seen: further shards would only wait for the same


def run_shard(sh_):
    if STOP:
        return None
    one_shard(sh_)
    if sh_.timeout or 'key=hang' in sh_.out:
        STOP.append(1)
    return sh_


def one_shard(sh_):
    job, exe = sh_.job, sh_.exe
    argv = [exe, '--prop', sh_.prop, '--mode', job['mode'], '--seed', str(sh_.seed), '--first', str(sh_.first), '--cases', str(sh_.cases)]
    for k, v in sorted(job.get('opt', {}).items()):
        argv += ['--opt', '%s=%s' % (k, v)]
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(job.get('env', {}))
    env['VERIF_BUILD'] = BUILD
    env['VERIF_REPO'] = REPO
    sh_.argv = argv
    limit = job.get('wall', 400)
    for attempt in (0, 1):
        try:
            p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=limit, cwd=sh_.scratch, stdin=subprocess.DEVNULL)
            sh_.rc, sh_.out, sh_.err = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
            sh_.timeout = False
            if job.get('retry') and (sh_.rc != 0 or 'VIOL ' in sh_.out) and attempt == 0 and not sh_.out.count('FIRM'):
                # real-time harness: a report that depends on timing must reproduce
                sh_.first_report = sh_.out[-4000:] + sh_.err[-4000:]
                continue
            return sh_
        except subprocess.TimeoutExpired as e:
            sh_.rc, sh_.timeout = None, True
            sh_.out = (e.stdout or b'').decode('utf8', 'replace')
            sh_.err = (e.stderr or b'').decode('utf8', 'replace')
    return sh_


def load_known():
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    a = sys.argv[2:]
    while a:
        if a[0] == '--tier':
            tier = a[1]
        elif a[0] == '--seed':
            seed = int(a[1])
        a = a[2:]
    t0 = time.time()
    jobs = J.JOBS[prop]
    for d in (BUILD, EVID, REPL):
        os.makedirs(d, exist_ok=True)
    for f in os.listdir(REPL):
        if f.startswith(prop + '_'):
            os.unlink(os.path.join(REPL, f))
    exes = {}
    extra = []
    for j in jobs:
        for n in [j['target']] + j.get('needs', []):
            if n not in exes:
                exes[n], err = build_target(n)
                if exes[n] is None:
                    print('BUILD FAILED for %s:\n%s' % (n, err[-6000:]))
                    return 2
    scratch = os.path.join(BUILD, 'scratch_' + prop)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    for j in jobs:
        if 'prepare' in j:
            j['prepare'](scratch, REPO)
    pools = {}
    for j in jobs:
        n = j[tier] if tier in j else j['quick']
        if n <= 0:
            continue
        k = min(j.get('shards', NCPU), n)
        for i in range(k):
            lo, hi = n * i // k, n * (i + 1) // k
            s = Shard()
            s.job, s.exe, s.prop, s.seed, s.first, s.cases = j, exes[j['target']], prop, seed, lo, hi - lo
            s.scratch = os.path.join(scratch, '%s_%s_%d' % (j['target'], j['mode'], i))
            os.makedirs(s.scratch, exist_ok=True)
            pools.setdefault(j.get('par', NCPU), []).append(s)
    done = []
    for par, ss in sorted(pools.items(), reverse=True):
        with ThreadPoolExecutor(par) as ex:
            done += [x for x in ex.map(run_shard, ss) if x]
    # ---- collect
    viols, modes, problems = [], {}, []
    known = load_known()
    for s in done:
        key = s.job['mode']
        m = modes.setdefault(s.job['target'] + '/' + key, {'cases': 0, 'evals': 0, 'distinct': 0, 'counters': {}, 'samples': [], 'rule': '', 'job': s.job})
        st = None
        for l in s.out.splitlines():
            if l.startswith('VIOL '):
                mm = re.match(r'VIOL prop=\S+ key=(\S+) case=(-?\d+) ?(.*)', l)
                if mm:
                    viols.append((mm.group(1), int(mm.group(2)), mm.group(3), s))
            elif l.startswith('STAT '):
                try:
                    st = json.loads(l[5:])
                except ValueError:
                    problems.append('unreadable STAT of ' + ' '.join(s.argv))
        own = [v for v in viols if v[3] is s and not any(k[0] == prop and k[1] == v[0] for k in known)]
        sk = san_key(s.err + '\n' + s.out)
        cc = re.search(r'CRASHCASE (-?\d+)', s.out)
        case = int(cc.group(1)) if cc else -1
        if sk:
            viols.append((sk, case, 'sanitizer report, see replay', s))
        elif s.timeout:
            viols.append(('timeout', -1, 'the workload did not finish within %d s, twice' % s.job.get('wall', 400), s))
        elif s.rc != 0 and not own:
            viols.append(('died:%s' % s.rc, case, 'the process under test died (exit status %s)' % s.rc, s))
        if st:
            m['cases'] += st['cases']
            m['evals'] += st['evals']
            if 'hashes' in st:      # few distinct ones: the shards' sets are merged; many: they are summed
                m.setdefault('hashes', set()).update(st['hashes'])
            else:
                m['distinct'] += st['distinct']
            m['rule'] = st['rule']
            for k, v in st['counters'].items():
                m['counters'][k] = m['counters'].get(k, 0) + v
            if len(m['samples']) < 4:
                m['samples'] += st['samples'][:2]
        elif not own and not sk and not s.timeout and s.rc == 0:
            problems.append('no statistics from ' + ' '.join(s.argv))
    for m in modes.values():
        m['distinct'] += len(m.pop('hashes', ()))
    fresh, knowns = [], {}
    for v in viols:
        hit = [k for k in known if k[0] == prop and k[1] == v[0]]
        if hit:
            knowns[hit[0]] = v
        else:
            fresh.append(v)
    # observed-nothing guard
    if not fresh:
        for name, m in modes.items():
            for c, lo in m['job'].get('need', {}).items():
                if m['counters'].get(c, 0) < lo:
                    problems.append('%s observed too little: %s=%d < %d' % (name, c, m['counters'].get(c, 0), lo))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': J.LEVEL.get(prop, 'exploration'),
        'coverage': {
            'evaluations': sum(m['evals'] for m in modes.values()),
            'distinct_nontrivial': sum(m['distinct'] for m in modes.values()),
            'rule': '; '.join('%s: %s' % (n, m['rule']) for n, m in modes.items()),
            'samples': [x for m in modes.values() for x in m['samples'][:4]][:24],
            'violation_keys': sorted(set(v[0] for v in fresh))[:20],
            'observed': {n: {'cases': m['cases'], 'distinct': m['distinct'], 'counters': m['counters']} for n, m in modes.items()},
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
        'assumptions': J.ASSUME.get(prop, J.ASSUME['*']),
    }
    for (p, k, what), v in knowns.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    seen = set()
    for v in fresh:
        if v[0] in seen:
            continue
        seen.add(v[0])
        rp = os.path.join(REPL, '%s_%s.txt' % (prop, re.sub(r'[^A-Za-z0-9_.-]', '_', v[0])[:80]))
        s = v[3]
        with open(rp, 'w') as f:
            cmd = [x for x in s.argv]
            if v[1] >= 0:
                cmd += ['--only', str(v[1]), '--verbose']
            f.write('property: %s\nkey: %s\ncase: %d\ndetail: %s\nreplay (after building with run.py): cd %s && %s\n\n---- stdout (tail)\n%s\n---- stderr (tail)\n%s\n'
                    % (prop, v[0], v[1], v[2], s.scratch, ' '.join(cmd), s.out[-20000:], s.err[-20000:]))
        print('  %s case=%d %s' % (v[0], v[1], v[2][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        if len(seen) >= 6:
            break
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not fresh:
        shutil.rmtree(scratch, ignore_errors=True)
    if fresh:
        return 1
    if problems:
        print('NO VERDICT: ' + '; '.join(problems[:5]))
        return 2
    print('%s %s seed=%d ok: %d evaluations, %d distinct, %.1f s' % (prop, tier, seed, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
