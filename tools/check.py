#!/usr/bin/env python3
"""Runs the check of one property.

  check.py <property> [quick|thorough]

1. TLC model-checks the design modules of the property (small constants, exhaustively).
2. The conformance driver is compiled against /repo's current headers and run; it records every
   public call it makes (operation, arguments, outcome, result) as one JSON line.
3. TLC validates the recorded lines against the specification (the *Trace.tla modules).
Exit 0: nothing rejected.  Exit 1 + "VIOLATION ...": a line is rejected, and is rejected again when
the case is executed again.  Any other exit: the check itself failed.
"""
import glob
import sys, os, re, json, time, shutil, subprocess, tempfile, struct
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
OUT = os.path.join(VERIF, 'out')
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        raise CheckError('timeout: ' + ' '.join(map(str, cmd))[:200])


def tlc(module, cfg, scratch, env=None, timeout=800, heap='2g', extra=()):
    meta = tempfile.mkdtemp(prefix='meta', dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-Xmx' + heap, '-Xss64m',
           '-cp', JAR, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *extra, module]
    r = sh(cmd, timeout, cwd=SPEC, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    txt = r.stdout.decode('utf8', 'replace')
    m = re.findall(r'(\d+) states generated, (\d+) distinct', txt)
    return r.returncode, txt, (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def write_cfg(path, lines):
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


class DoesNotCompile(Exception):
    pass


def probe(d, cmd, scratch, r):
    """The headers and the tools work but the documented calls of the driver do not compile any more: a violation."""
    txt = r.stdout.decode('utf8', 'replace')
    if r.returncode != 1 or ' error: ' not in txt or 'No such file' in txt or 'out of memory' in txt:
        return
    src = os.path.join(scratch, 'probe.cpp')
    incs = [l for l in open(cmd[cmd.index('-c') + 1]) if l.startswith('#include "vif')]
    with open(src, 'w') as f:
        f.write('#include "vif/core/vec.hpp"\n#include "vif/utility/generic.hpp"\n' + ''.join(incs))
    c = list(cmd)
    c[c.index('-c') + 1] = src
    c[c.index('-o') + 1] = src + '.o'
    if sh(c, 300).returncode == 0:
        raise DoesNotCompile(txt)


def compile_driver(pid, conf, scratch):
    """compile every source of every driver of the property in parallel; link."""
    bins = []
    jobs = []
    for d in conf['drivers']:
        cxx = d.get('cxx', 'g++')
        flags = ['-std=' + d.get('std', 'c++11'), d.get('opt', '-O1'), '-g1', '-w', '-DNO_LIBUNWIND', '-DNO_LIBDWARF',
                 '-I' + os.path.join(REPO, 'include'), '-I' + HARN, '-pthread']
        if d.get('reflection', False) is False:
            flags += ['-DNO_REFLECTION']
        if d.get('asan', True):
            flags += ['-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
        flags += d.get('flags', [])
        srcs = d['src'] + ([] if d.get('nomain') else ['vp_main.cpp'])
        objs = []
        for s in srcs:
            o = os.path.join(scratch, d['name'] + '.' + s.replace('/', '_') + '.o')
            objs.append(o)
            jobs.append([cxx, *flags, '-c', os.path.join(HARN, s), '-o', o])
        exe = os.path.join(scratch, d['name'])
        link = [cxx, '-pthread', '-o', exe] + objs
        if d.get('asan', True):
            link += ['-fsanitize=address']
        if not d.get('nowrap'):
            link += ['-Wl,--wrap=exit,--wrap=abort']
        link += [f for f in d.get('flags', []) if f.startswith('-fsanitize')]
        link += d.get('libs', [])
        bins.append((d, exe, link))
    with ThreadPoolExecutor(NCPU) as ex:
        for cmd, r in zip(jobs, ex.map(lambda c: sh(c, 800), jobs)):
            if r.returncode:
                probe(None, cmd, scratch, r)
                raise CheckError('compilation failed:\n' + ' '.join(cmd) + '\n' + r.stdout.decode('utf8', 'replace')[-4000:])
    for d, exe, link in bins:
        r = sh(link, 300)
        if r.returncode:
            raise CheckError('link failed:\n' + r.stdout.decode('utf8', 'replace')[-3000:])
    return [(d, exe) for d, exe, _ in bins]


def run_shard(d, exe, tier, seed, shard, nsh, scratch, only=None, tag=''):
    base = os.path.join(scratch, '%s%s.%d' % (d['name'], tag, shard))
    out, st = base + '.ndjson', base + '.st'
    wdir = base + '.wd'
    os.makedirs(wdir, exist_ok=True)
    frm, crashes, ncases, hangs = 0, 0, 0, 0
    if os.path.exists(out):
        os.unlink(out)
    while True:
        cmd = [exe, '--seed', str(seed), '--tier', tier, '--shard', str(shard), '--nshards', str(nsh), '--from', str(frm),
               '--out', out, '--status', st, '--scratch', wdir]
        if only is not None:
            cmd += ['--only', str(only)]
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=0:log_path=' + base + '.asan:abort_on_error=0:exitcode=98'
        env['TSAN_OPTIONS'] = 'exitcode=96:halt_on_error=1:log_path=' + base + '.tsan'
        env.update(d.get('env', {}))
        r = sh(cmd, d.get('timeout', 700), cwd=wdir, env=env)
        with open(st, 'rb') as f:
            cur, n = struct.unpack('ll', f.read(16))
        if r.returncode == 0 and cur == -1:
            ncases += n
            break
        if r.returncode == 3:
            raise CheckError('driver failed: ' + r.stdout.decode('utf8', 'replace')[-1000:])
        # the code under test took the process down: that is an observation, no action of the
        # specification explains it
        crashes += 1
        kind = {97: 'hang', 98: 'memory-error', 96: 'data-race'}.get(r.returncode, 'crash')
        with open(out, 'rb+') as f:   # drop a partial last line
            data = f.read()
            k = data.rfind(b'\n') + 1
            f.truncate(k)
        with open(out, 'a') as f:
            f.write(json.dumps({'c': cur, 'op': 'crash', 'kind': kind, 'rc': r.returncode}) + '\n')
        hangs += kind == 'hang'
        if only is not None or crashes >= 10 or hangs >= 2:
            break
        frm = cur + 1
    shutil.rmtree(wdir, ignore_errors=True)
    return out, ncases + crashes


def validate(conf, d, out, scratch, tag):
    """TLC validates a recorded file; returns (list of rejected line numbers, states, nlines)."""
    nlines = sum(1 for _ in open(out))
    if nlines == 0:
        return [], (0, 0), 0
    cfg = os.path.join(scratch, tag + '.cfg')
    lines = ['SPECIFICATION TraceSpec', 'CHECK_DEADLOCK FALSE'] + d.get('cfg', [])
    write_cfg(cfg, lines)
    rc, txt, st = tlc(d['trace'], cfg, scratch, env={'TRACE': out, **d.get('tlcenv', {})}, timeout=d.get('tlc_timeout', 850),
                      heap=d.get('heap', '3g'), extra=['-workers', '1'])
    done = re.search(r'<<"DONE", (\d+)>>', txt)
    if rc != 0 or not done or int(done.group(1)) != nlines:
        keep = [l for l in txt.splitlines() if 'REJECT' not in l and not re.match(r'^(\d+\. Line|State \d+:|pos = |$)', l)]
        tail = '\n'.join(keep)[-2500:]
        raise CheckError('TLC failed on %s (rc=%d, %d lines):\n%s' % (out, rc, nlines, tail))
    rej = sorted(set(int(x) for x in re.findall(r'<<"REJECT", (\d+)>>', txt)))
    return rej, st, nlines


def design(conf, scratch, tier):
    """exhaustive model checking of the design modules"""
    res = []
    for m in conf.get('mc', []):
        if m.get('tier', 'quick') == 'thorough' and tier != 'thorough':
            continue
        cfg = os.path.join(scratch, 'mc_%s_%d.cfg' % (m['module'], len(res)))
        write_cfg(cfg, m['cfg'])
        rc, txt, st = tlc(m['module'], cfg, scratch, timeout=m.get('timeout', 800), heap=m.get('heap', '4g'),
                          extra=['-workers', str(m.get('workers', 2))] + m.get('extra', []))
        if rc != 0:
            raise CheckError('design model %s fails:\n%s' % (m['module'], txt[-4000:]))
        if st[1] < m.get('min_states', 1):
            raise CheckError('design model %s explored only %d states' % (m['module'], st[1]))
        res.append((m['module'], st))
    return res


def load_known():
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\w+) match=(\{.*?\}) (.*)', line)
            if m:
                known.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return known


def is_known(known, pid, ev):
    for p, match, what in known:
        if p == pid and all(ev.get(k) == v for k, v in match.items()):
            return what
    return None


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    conf = CHECKS[pid]
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=pid + '.', dir=OUT)
    try:
        rc = run(pid, tier, seed, conf, scratch, t0)
    except DoesNotCompile as e:
        rdir = os.path.join(OUT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, pid + '_compile.txt')
        with open(rp, 'w') as f:
            f.write(str(e))
        log(str(e)[:1500])
        log('documented calls do not compile any more, while the headers do')
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
                       'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [str(e)[:400]]},
                       'assumptions': [], 'wall_s': round(time.time() - t0, 1), 'violations': 1}, f, indent=1)
        log('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    except CheckError as e:
        log('CHECK-ERROR property=%s: %s' % (pid, e))
        rc = 2
    finally:
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)
        for p in glob.glob('/tmp/vpfs.%d.*' % os.getpid()):   # see harness/fs.cpp
            shutil.rmtree(p, ignore_errors=True)
    sys.exit(rc)


def run(pid, tier, seed, conf, scratch, t0):
    with ThreadPoolExecutor(1) as dex:
        dfut = dex.submit(design, conf, scratch, tier)
        bins = compile_driver(pid, conf, scratch)
        t_comp = time.time() - t0
        nsh_total = conf.get('shards', NCPU)
        jobs = []
        seeds = [seed]
        for d, exe in bins:
            for s in seeds:
                for k in range(d.get('shards', nsh_total)):
                    jobs.append((d, exe, s, k, d.get('shards', nsh_total)))

        def one(j):
            d, exe, s, k, nsh = j
            out, ncases = run_shard(d, exe, tier, s, k, nsh, scratch)
            t1 = time.time()
            rej, st, nlines = validate(conf, d, out, scratch, 'v_%s_%d' % (d['name'], k))
            if os.environ.get('VP_VERBOSE'):
                log('shard', d['name'], k, 'cases', ncases, 'events', nlines, 'tlc %.1fs' % (time.time() - t1))
            return d, exe, s, k, out, ncases, rej, st, nlines
        with ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(one, jobs))
        t_run = time.time() - t0
        dres = dfut.result()
    events = sum(r[8] for r in results)
    cases = sum(r[5] for r in results)
    tstates = sum(r[7][1] for r in results)
    if events < conf.get('min_events', 1):
        raise CheckError('only %d events recorded' % events)
    known = load_known()
    rejected, kf = [], {}
    samples = []
    ops = {}
    for d, exe, s, k, out, ncases, rej, st, nlines in results:
        lines = open(out).read().splitlines()
        for l in lines:
            m = re.search(r'"op":\s*"([^"]+)"', l)
            if m:
                ops[m.group(1)] = ops.get(m.group(1), 0) + 1
        if lines and len(samples) < 4:
            samples.append(lines[len(lines) // 2][:600])
        for i in rej:
            ev = json.loads(lines[i - 1])
            w = is_known(known, pid, ev)
            if w:
                kf[w] = kf.get(w, 0) + 1
            else:
                rejected.append((d, exe, s, k, ev, lines))
    confirmed = None
    if rejected:
        log('%d rejected events; executing again to confirm' % len(rejected))
        seen = []
        for d, exe, s, k, ev, lines in rejected:
            if (d['name'], ev['c']) in seen:
                continue
            seen.append((d['name'], ev['c']))
            if len(seen) > 12:
                break
            again = 0
            for t in range(conf.get('confirm', 1)):
                out, _ = run_shard(d, exe, tier, s, 0, 1, scratch, only=ev['c'], tag='.re%d_%d' % (ev['c'], t))
                rej, _, _ = validate(conf, d, out, scratch, 're_%s_%d_%d' % (d['name'], ev['c'], t))
                l2 = open(out).read().splitlines()
                rej = [i for i in rej if not is_known(known, pid, json.loads(l2[i - 1]))]
                if rej:
                    again += 1
                    break
            if again:
                confirmed = (d, ev['c'], s, json.loads(l2[rej[0] - 1]), l2, rej[0])
                break
            log('case %s of %s was rejected once but not again: not reported' % (ev['c'], d['name']))
        if not confirmed:
            raise CheckError('rejections did not repeat')
    for w, n in kf.items():
        log('KNOWN-FINDING: property=%s %s (%d events)' % (pid, w, n))
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(st[1] for _, st in dres) + tstates,
            'transitions': sum(st[0] for _, st in dres) + events,
            'traces_validated_against_impl': cases,
            'events_validated': events,
            'operations': dict(sorted(ops.items())),
            'design_models': [{'module': m, 'generated': st[0], 'distinct': st[1]} for m, st in dres],
            'samples': samples,
        },
        'assumptions': conf.get('assumptions', []),
        'wall_s': round(wall, 1),
        'violations': 1 if confirmed else 0,
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s: %d cases, %d events validated by TLC, design models %s; compile %.1fs, total %.1fs' % (
        pid, cases, events, [(m, st[1]) for m, st in dres], t_comp, wall))
    if confirmed:
        d, c, s, e, lines, at = confirmed
        rdir = os.path.join(OUT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s_case%s.json' % (pid, c))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'driver': d['name'], 'case': c, 'seed': s, 'tier': tier, 'spec': d['trace'],
                       'rejected_event': e, 'trace': lines[:at][-200:],
                       'how': 'python3 tools/check.py %s %s with VERIF_SEED=%s reproduces it' % (pid, tier, s)}, f, indent=1)
        log('rejected: ' + json.dumps(e)[:1500])
        log('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    main()
