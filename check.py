#!/usr/bin/env python3
"""check.py PROP [quick|thorough]   decide one property on /repo's working tree.
   check.py --replay FILE            replay a counterexample
   check.py --setup                  build nothing lasting; verify that the toolchain works
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken."""
import glob, json, os, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
H = os.path.join(VERIF, 'harness')
sys.path.insert(0, VERIF)
from props import PROPS  # noqa

VARIANT = {
    'asan': '-O1 -g -fsanitize=address -fno-omit-frame-pointer',
    'plain': '-O1 -g',
    'fast': '-O2 -g',
    'tsan': '-O1 -g -fsanitize=thread',
    'sched': '-O2 -g',
}
LIBFLAGS = {'sched': '-fsanitize=thread'}   # instrumentation only: the runtime is harness/ctlsched.cpp
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=2500',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_thread_leaks=0',
    'MALLOC_PERTURB_': '165',
    'LSAN_OPTIONS': 'print_suppressions=0',
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def has_main(path):
    with open(path, errors='replace') as f:
        return re.search(r'^\s*(int|void)?\s*main\s*\(', f.read(), re.M) is not None


def gen_config(out):
    """The configuration header normally made by cmake/autoconf."""
    tmpl = os.path.join(REPO, 'src', 'filedb_config_internal.h.in')
    txt = ''
    names = set()
    if os.path.exists(tmpl):
        names = set(re.findall(r'#\s*undef\s+(\w+)', open(tmpl, errors='replace').read()))
    have = {n: '1' for n in names if n.startswith('HAVE_') or n == 'STDC_HEADERS'}
    txt = '#pragma once\n' + ''.join('#define %s %s\n' % kv for kv in sorted(have.items()))
    for n in ('PACKAGE', 'PACKAGE_BUGREPORT', 'PACKAGE_NAME', 'PACKAGE_STRING', 'PACKAGE_TARNAME', 'PACKAGE_VERSION', 'VERSION'):
        txt += '#define %s "filedb"\n' % n
    for n in names:
        if 'ENDIAN' in n and 'LITTLE' in n:
            txt += '#define %s 1\n' % n
    with open(os.path.join(out, 'filedb_config_internal.h'), 'w') as f:
        f.write(txt)


def build(prop, b, outdir):
    """compile the library from REPO and one harness; returns the binary"""
    os.makedirs(outdir, exist_ok=True)
    gen_config(outdir)
    fl = VARIANT[b['variant']] + ' -w -ftrivial-auto-var-init=pattern'
    jobs = []
    objs = []

    def add(src, cxx, extra=''):
        o = os.path.join(outdir, os.path.basename(src).replace('.', '_') + '.o')
        objs.append(o)
        cc = 'g++ -std=c++17' if cxx else 'gcc'
        inc = '-I%s -I%s -I%s/filehash -I%s/src' % (outdir, H, REPO, REPO)
        jobs.append('%s %s -D_FILE_OFFSET_BITS=64 -D_FILEDB_LITTLE_ENDIAN %s %s -c %s -o %s' % (cc, fl, inc, extra, src, o))

    for s in sorted(glob.glob(REPO + '/filehash/*.c')):
        if not has_main(s):
            add(s, False, LIBFLAGS.get(b['variant'], '') + ' ' + b.get('libflags', ''))
    if b.get('cxx'):
        for s in sorted(glob.glob(REPO + '/src/*.cpp')):
            if not has_main(s):
                add(s, True, LIBFLAGS.get(b['variant'], '') + ' ' + b.get('libflags', ''))
    hs = [b['src'], 'mc.cpp'] + b.get('with', ['kv.cpp'])
    for s in hs:
        add(os.path.join(H, s), True, b.get('cflags', '') + (' ' + b['mainflags'] if s == b['src'] and 'mainflags' in b else '') + " -DHARNESS_DIR='\"%s\"'" % H)
    with ThreadPoolExecutor(8) as ex:
        for j, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                raise BuildError(j + '\n' + r.stdout[-3000:])
    exe = os.path.join(outdir, b['src'].replace('.cpp', ''))
    wrap = ' '.join('-Wl,--wrap=' + w for w in b.get('wrap', []))
    r = sh('g++ %s %s %s -lpthread -o %s' % (VARIANT[b['variant']], ' '.join(objs), wrap, exe))
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    return exe


def env_for(tier, jobs=None, budget=None, after=None):
    e = dict(os.environ)
    e.update(ENV)
    e.pop('MC_STDERR', None)
    e['VERIF_TIER'] = tier
    if budget:
        e['MC_BUDGET'] = str(budget)
    if jobs:
        e['MC_JOBS'] = str(jobs)
    e.pop('MC_AFTER', None)
    if after:
        e['MC_AFTER'] = str(after)
    return e


def one(exe, fam, idx, tier, timeout=150):
    """replay one case alone; returns (failed, class, text)"""
    e = env_for(tier)
    e['MC_ALONE'] = '1'
    try:
        r = subprocess.run([exe, 'one', fam, str(idx), tier], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, errors='replace', text=True)
    except subprocess.TimeoutExpired:
        return False, 'inconclusive', 'no end within %d s' % timeout
    m = re.search(r'^FAIL class=(\S+)(.*)$', r.stdout, re.M)
    if r.returncode == 0 and not m:
        return False, '', r.stdout
    if r.returncode == 1 and m:
        txt = r.stdout
        if m.group(1).startswith('crash'):
            txt += '\n--- stderr tail ---\n' + r.stderr[-3000:]
        return True, m.group(1), txt
    return False, 'inconclusive', r.stdout[-2000:] + r.stderr[-2000:]


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)).get('findings', []) if os.path.exists(p) else []


def is_known(prop, fam, idx, cls, kn):
    for k in kn:
        if k['property'] == prop and k['family'] == fam and k['class'] == cls and (k.get('idx') is None or int(k['idx']) == int(idx)):
            return k
    return None


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == '--setup':
        for t in ('gcc', 'g++'):
            if not shutil.which(t):
                print('missing', t)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        print('setup ok')
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        b = PROPS[d['property']]['bins'][d['bin']]
        exe = build(d['property'], b, os.path.join(BUILD, d['property'] + '_%d' % d['bin']))
        bad, cls, txt = one(exe, d['family'], d['idx'], d['tier'], b.get('one_timeout', 150))
        print(txt)
        return 1 if bad else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    t0 = time.time()
    total = float(os.environ.get('VERIF_BUDGET', '500' if tier == 'quick' else '3000'))
    kn = known()
    res = []
    violations = []
    known_hit = {}
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, 'replays')
    os.makedirs(rdir, exist_ok=True)
    queue = [(bi, b, True) for bi, b in enumerate(P['bins'])]
    while queue:
        bi, b, first = queue.pop(0)
        bdir = os.path.join(BUILD, '%s_%d' % (prop, bi))
        shutil.rmtree(bdir, ignore_errors=True)
        try:
            exe = build(prop, b, bdir)
        except BuildError as ex:
            print('build failed:\n' + str(ex))
            return 2
        out = os.path.join(bdir, 'out.json')
        left = max(30.0, (total - (time.time() - t0)) / (len(P['bins']) - bi))
        r = subprocess.run([exe, 'run', out], env=env_for(tier, b.get('jobs'), left, 40 if first else None), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
        if r.returncode != 0 or not os.path.exists(out):
            print('explorer failed (%d): %s' % (r.returncode, r.stderr[-2000:]))
            return 2
        o = json.load(open(out), strict=False)
        o['bin'] = b['src']
        res.append(o)
        # replay before report: every class of suspect, simplest first
        byclass = {}
        for s in o['suspects']:
            byclass.setdefault((s['family'], s['class']), []).append(s)
        deadline = time.time() + 100
        unconfirmed = 0
        for (fam, cls), lst in byclass.items():
            lst.sort(key=lambda s: s['idx'])
            confirmed = 0
            for s in lst[:6]:
                if time.time() > deadline and violations:
                    break
                bad, c1, txt = one(exe, fam, s['idx'], tier, b.get('one_timeout', 150))
                if not bad:
                    unconfirmed += 1
                    continue
                bad2, c2, _ = one(exe, fam, s['idx'], tier, b.get('one_timeout', 150))
                if not bad2:
                    continue
                k = is_known(prop, fam, s['idx'], c1, kn)
                if k:
                    known_hit[k['what']] = k
                    continue
                name = '%s-%s-%s.json' % (prop, re.sub(r'\W+', '_', fam), s['idx'])
                rp = os.path.join(rdir, name)
                json.dump({'property': prop, 'bin': bi, 'family': fam, 'idx': s['idx'], 'tier': tier, 'class': c1,
                           'message': s['msg'], 'history': txt,
                           'replay_cmd': 'python3 /verif/check.py --replay ' + rp}, open(rp, 'w'), indent=1)
                violations.append((rp, c1, fam, s['idx'], s['msg']))
                confirmed += 1
                if confirmed >= 2:
                    break
            if len(violations) >= 8:
                break
        if violations:
            break
        if unconfirmed and not o['complete'] and first:
            # nothing that was seen can be reproduced, but it shortened the exploration: explore again, to the end
            res.pop()
            queue.insert(0, (bi, b, False))
        if os.environ.get('VERIF_KEEP') is None:
            shutil.rmtree(bdir, ignore_errors=True)
    S = lambda k: sum(o[k] for o in res)
    fams = [{'bin': o['bin'], 'family': f['name'], 'cases': f['count'], 'executed': f['done']} for o in res for f in o['families']]
    complete = all(o['complete'] for o in res) and len(res) == len(P['bins'])
    samples = [dict(s, bin=o['bin']) for o in res for s in o['samples']][:12]
    if P['level'] == 'model_checking':
        cov = {'states': S('states'), 'transitions': S('transitions'), 'traces_validated_against_impl': S('executions')}
    else:
        cov = {'evaluations': S('executions'), 'distinct_nontrivial': min(S('nontrivial'), S('executions')), 'rule': P['rule'],
               'states': S('states'), 'transitions': S('transitions')}
    cov.update({'distinct_outcomes': S('outcomes'), 'families': fams, 'samples': samples, 'exhaustive': complete})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov,
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
          'bounds': P.get('bounds', ''), 'unreproduced_suspects': sum(len(o['suspects']) for o in res) if not violations else 0}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s %s: %d executions, %d transitions, %d states, %d outcomes, %s, %.1fs' % (
        prop, tier, S('executions'), S('transitions'), S('states'), S('outcomes'),
        'complete' if complete else 'NOT complete within the time budget', time.time() - t0))
    if violations:
        for rp, c, fam, idx, msg in violations:
            print('  %s[%s] %s: %s' % (fam, idx, c, msg))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
