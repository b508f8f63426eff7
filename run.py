#!/usr/bin/env python3
"""Driver of the checks: builds the harness of a property from /repo's working tree, runs it, writes the evidence.

  run.py check ID [--tier quick|thorough]     the check of one property
  run.py replay FILE                          runs the case of a reported violation again, with its operations printed
  run.py setup                                checks that the tools are there
  run.py all [--tier ...]                     all checks, one after another
"""
import argparse, concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
ALG = os.path.join(REPO, 'core/src/main/cpp/algorithm')
INT = os.path.join(REPO, 'core/src/main/cpp/interfaces')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
OUT = os.path.join(VERIF, 'out')
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BASE = ['-std=gnu++14', '-w', '-include', 'cstdint', '-include', 'iostream', '-include', 'limits',
        '-include', 'algorithm']
# undefined behaviour whose result the oracles judge is left to them: what counts is what the code does
SAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
       '-fno-sanitize=signed-integer-overflow,shift,null,nonnull-attribute,returns-nonnull-attribute,pointer-overflow,'
       'alignment,vla-bound']
FAST = ['-O2', '-g1', '-D_GLIBCXX_ASSERTIONS']
ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3500:malloc_fill_byte=190:'
                        'max_malloc_fill_size=65536:free_fill_byte=222:max_free_fill_size=4096:'
                        'quarantine_size_mb=16:allocator_may_return_null=0:alloc_dealloc_mismatch=0:symbolize=1',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=99', LC_ALL='C')


class BuildError(Exception):
    pass


def sources(dirs):
    res = []
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(d, '**', '*.cc'), recursive=True) +
                        glob.glob(os.path.join(d, '**', '*.cpp'), recursive=True)):
            res.append(f)
    return res


def tree_hash(dirs, flags):
    h = hashlib.sha256(' '.join(flags).encode())
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.cc', '.cpp', '.inl')):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


def compile_one(args):
    src, obj, flags = args
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++'] + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('g++ failed on %s\n%s' % (src, r.stdout.decode(errors='replace')[-4000:]))
    os.rename(tmp, obj)


def build(check):
    """Returns the harness binary, built from the working tree (object files are reused by content)."""
    opt = SAN if check.get('san', True) else FAST
    flags = BASE + opt
    dirs = [ALG] + ([INT] if check.get('interfaces') else [])
    inc = ['-I' + ALG, '-I' + INT, '-I' + HARNESS]
    own = [os.path.join(REPO, d) for d in check.get('repo_dirs', [])]         # of the harness only
    own_inc = ['-I' + os.path.join(HARNESS, d) for d in check.get('harness_dirs', [])] + \
              ['-I' + d for d in own] + ['-I' + os.path.join(REPO, d) for d in check.get('repo_inc', [])]
    lib_hash = tree_hash(dirs, flags)
    libdir = os.path.join(BUILD, 'lib-' + lib_hash)
    os.makedirs(libdir, exist_ok=True)
    jobs, objs = [], []
    for s in sources(dirs):
        o = os.path.join(libdir, hashlib.md5(os.path.relpath(s, REPO).encode()).hexdigest()[:10] + '_' +
                         os.path.basename(s) + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, flags + inc))
    hh = tree_hash([HARNESS] + own, flags + [lib_hash])
    bindir = os.path.join(BUILD, 'bin-' + hh)
    os.makedirs(bindir, exist_ok=True)
    for s in [check['source'], 'runner.cc']:
        o = os.path.join(bindir, s + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.join(HARNESS, s), o, flags + inc + own_inc + check.get('defines', [])))
    # the slowest (JSON) translation units first
    jobs.sort(key=lambda j: not ('vgram_builders' in j[0] or check.get('interfaces') and j[0].startswith(HARNESS)))
    binary = os.path.join(bindir, check['source'].replace('.cc', ''))
    if jobs or not os.path.exists(binary):
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(compile_one, jobs))
        tmp = binary + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++'] + opt + objs + ['-o', tmp] + check.get('link', []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError('link failed\n' + r.stdout.decode(errors='replace')[-4000:])
        os.rename(tmp, binary)
    return binary


def known_findings(pid):
    res = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                res.append(line[len('finding: property=%s ' % pid):])
    return res


def run_check(pid, tier):
    check = CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    print('%s (%s): building from %s' % (pid, tier, REPO), flush=True)
    try:
        binary = build(check)
    except BuildError as e:
        print(str(e))
        print('%s: cannot build the harness' % pid)
        return 3
    built = time.time() - t0
    scratch = tempfile.mkdtemp(prefix='vt_%s_' % pid)
    try:
        out = os.path.join(scratch, 'result.json')
        cmd = [binary, '--out', out, '--scratch', scratch, '--workers', str(check.get('workers', os.cpu_count() or 8)),
               '--hang', str(check.get('hang', 30)),
               '--budget', str(check.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000))]
        if tier == 'thorough':
            cmd.append('--thorough')
        # a case that was only slow is not a failure: once more with more time
        for patience in (1, 6):
            cmd[cmd.index('--hang') + 1] = str(check.get('hang', 30) * patience)
            if os.path.exists(out):
                os.remove(out)
            r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if not os.path.exists(out):
                print(r.stdout.decode(errors='replace')[-3000:])
                print('%s: the harness ended with status %s and no result' % (pid, r.returncode))
                return 3
            res = json.load(open(out))
            violation = confirm(pid, tier, binary, res, scratch) if res['bad'] else None
            if violation or not res['bad'] or not all('no end after' in b['why'] for b in res['bad']):
                break
        if res['internal_error'] or (res['bad'] and violation is None):
            print(r.stdout.decode(errors='replace')[-3000:])
            print('%s: error of the harness: %s' % (pid, res['internal_error'] or 'a failure that cannot be repeated'))
            return 3
        write_evidence(pid, tier, seed, check, res, built, time.time() - t0, violation)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d cases, %d distinct states, %d transitions, %d histories in %.1f s (build %.1f s)%s' % (
        pid, res['evaluations'], res['states'], res['transitions'], res['traces'], time.time() - t0, built,
        '' if not res['cases_not_run_time'] else ', TIME BOUND: %d cases not run' % res['cases_not_run_time']))
    if violation:
        print(violation['why'][:2000])
        print('VIOLATION property=%s replay=%s' % (pid, violation['path']))
        return 1
    return 0


def confirm(pid, tier, binary, res, scratch):
    """Runs a failed case again, alone; then with the cases before it (state left behind in the process)."""
    for bad in res['bad'][:3]:
        alone = [binary, '--only', str(bad['case']), '--scratch', scratch, '--hang', '60', '--budget', '60']
        after = alone + ['--from', '0', '--nshards', str(res['workers']), '--shard', str(bad['shard']),
                         '--budget', '400']
        for args in (alone, after):
            if tier == 'thorough':
                args = args + ['--thorough']
            r = subprocess.run(args, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            text = r.stdout.decode(errors='replace')
            if r.returncode == 1:
                os.makedirs(OUT, exist_ok=True)
                path = os.path.join(OUT, 'violation_%s.json' % pid)
                why = [l for l in text.split('\n') if 'BROKEN' in l or 'FAILED' in l]
                with open(path, 'w') as f:
                    json.dump({'property': pid, 'tier': tier, 'case': bad['case'],
                               'args': [a for a in args[1:] if a != scratch and a != '--scratch'],
                               'why': why[-1] if why else bad['why'],
                               'output': text[-20000:]}, f, indent=1)
                return {'path': path, 'why': why[-1] if why else bad['why']}
    return None


def write_evidence(pid, tier, seed, check, res, built, wall, violation):
    cov = {
        'evaluations': res['evaluations'],
        'exhaustive': res['cases_not_run_time'] == 0 and res['histories_capped'] == 0 and not res['bad'],
        'cases_enumerated': res['cases_total'],
        'cases_not_run_because_of_time': res['cases_not_run_time'],
        'bounds': check['bounds'][tier],
        'samples': res['samples'],
        'build_s': round(built, 1),
    }
    if check['level'] == 'model_checking':
        cov['states'] = res['states']
        cov['what_is_a_state'] = check['state_is']
        cov['transitions'] = res['transitions']
        cov['traces_validated_against_impl'] = res['traces']
        cov['histories_given_up_too_many_model_states'] = res['histories_capped']
        cov['histories_outside_the_property'] = res['vacuous']
    else:
        cov['distinct_nontrivial'] = res['states']
        cov['rule'] = check['rule']
        cov['fault_points'] = res['transitions']
    if res['states_not_counted']:
        cov['states_not_counted_table_full'] = res['states_not_counted']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': check['level'], 'coverage': cov,
          'assumptions': check.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def replay(path):
    v = json.load(open(path))
    binary = build(CHECKS[v['property']])
    scratch = tempfile.mkdtemp(prefix='vt_replay_')
    try:
        r = subprocess.run([binary] + v['args'] + ['--scratch', scratch], env=ENV)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'setup', 'all'])
    ap.add_argument('arg', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    if a.cmd == 'setup':
        subprocess.run(['g++', '--version'], check=True, stdout=subprocess.DEVNULL)
        os.makedirs(OUT, exist_ok=True)
        return 0
    if a.cmd == 'replay':
        return replay(a.arg)
    if a.cmd == 'all':
        rcs = {p: run_check(p, a.tier) for p in sorted(CHECKS)}
        print(rcs)
        return max(rcs.values())
    return run_check(a.arg, a.tier)


if __name__ == '__main__':
    sys.exit(main())
