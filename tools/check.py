#!/usr/bin/env python3
"""Builds the harness of a property from /repo's working tree, explores, and reports.

usage: check.py <property> [--thorough] [--replay FILE] [--keep]
exit: 0 the property held on everything explored, 1 violation, 2 error of the check
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from registry import CHECKS  # noqa: E402

BASE = ['g++', '-std=c++20', '-pthread', '-w', '-D_GLIBCXX_ASSERTIONS', '-I', os.path.join(REPO, 'include')]
MODES = {
    'debug': ['-O1'],
    'release': ['-O1', '-DNDEBUG'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
}


def error(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)


def known_findings(pid):
    """key -> text of the listed findings of a property"""
    res = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('finding: '):
                words = line.split()
                fields = dict(w.split('=', 1) for w in words[1:3])
                if fields['property'] == pid:
                    res[fields['key']] = ' '.join(words[3:])
    return res


def build(scratch, number, harness, mode, extra):
    exe = os.path.join(scratch, f'{harness}.{mode}.{number}')
    cmd = BASE + MODES[mode] + extra + [os.path.join(VERIF, 'src', harness + '.cpp'), '-o', exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        error(f'{harness} does not compile:\n' + r.stdout[-6000:])
    return exe


def environment(scratch):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'LANG', 'VERIF_SEED', 'VERIF_TIER')}
    env['HOME'] = os.path.join(scratch, 'home')
    env['TMPDIR'] = scratch
    env['LC_ALL'] = 'C'
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
    return env


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    replay = None
    keep = False
    while args:
        a = args.pop(0)
        if a == '--thorough':
            thorough = True
        elif a == '--replay':
            replay = args.pop(0)
        elif a == '--keep':
            keep = True
        else:
            error('unknown argument ' + a)
    check = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    os.chmod(scratch, 0o755)
    fast = scratch # for the files of the harnesses: in memory if possible
    try:
        if os.statvfs('/dev/shm').f_bavail * os.statvfs('/dev/shm').f_frsize > 1 << 28:
            fast = tempfile.mkdtemp(prefix=f'verif-{pid}-', dir='/dev/shm')
            os.chmod(fast, 0o755)
    except OSError:
        pass
    try:
        return run(pid, check, thorough, replay, scratch, fast, t0)
    finally:
        if not keep:
            for d in {scratch, fast}:
                subprocess.run(['chmod', '-R', 'u+rwX', d], stderr=subprocess.DEVNULL)
                shutil.rmtree(d, ignore_errors=True)


def run(pid, check, thorough, replay, scratch, fast, t0):
    env = environment(fast)
    jobs = check['jobs']
    with ThreadPoolExecutor(8) as ex:
        # jobs that differ only in the section share an executable
        kinds = [(j['harness'], j.get('mode', 'debug'), tuple(j.get('flags', []))) for j in jobs]
        built = dict(zip(dict.fromkeys(kinds), ex.map(lambda nk: build(scratch, nk[0], nk[1][0], nk[1][1], list(nk[1][2])),
                                                      list(enumerate(dict.fromkeys(kinds))))))
        exes = [built[k] for k in kinds]
    t_build = time.time() - t0
    known = known_findings(pid)

    if replay:
        with open(replay) as f:
            lines = f.read().split('\n')
        idx = int(lines[0].split()[-1])
        path = os.path.join(scratch, 'replay')
        with open(path, 'w') as f:
            f.write('\n'.join(lines[1:]))
        work = os.path.join(fast, 'work')
        os.makedirs(os.path.join(work, 'cwd'))
        r = subprocess.run([exes[idx], '--scratch', work, '--replay', path] + (['--thorough'] if thorough else []), env=env,
                           cwd=os.path.join(work, 'cwd'))
        return r.returncode if r.returncode in (0, 1) else 2

    reports = []
    problems = []
    for i, (job, exe) in enumerate(zip(jobs, exes)):
        work = os.path.join(fast, f'work{i}')
        os.makedirs(os.path.join(work, 'cwd'))
        out = os.path.join(scratch, f'out{i}.json')
        cmd = [exe, '--scratch', work, '--out', out, '--only', job.get('only', pid + '/'), '--shards', str(job.get('shards', 8))]
        for k in known:
            cmd += ['--known', k]
        if thorough:
            cmd.append('--thorough')
        limit = max(60, (14000 if thorough else 840) - (time.time() - t0))
        cmd += ['--budget', str(int(limit * 0.6))]
        with subprocess.Popen(cmd, env=env, cwd=os.path.join(work, 'cwd'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors='replace', start_new_session=True) as r:
            try:
                output = r.communicate(timeout=limit)[0]
            except subprocess.TimeoutExpired:
                os.killpg(r.pid, signal.SIGKILL)
                problems.append(f'{job["harness"]}: no answer within {limit:.0f} s')
                break
        if r.returncode not in (0, 3):
            problems.append(f'{job["harness"]} ended with {r.returncode}:\n' + output[-4000:])
            continue
        if output:
            print(output[-3000:])
        with open(out) as f:
            reports.append(dict(json.load(f), job=i))

    failures = []
    for rep in reports:
        for f in rep['failures']:
            failures.append((rep['job'], f))
    violations = [(i, f) for i, f in failures if not (f['key'] and f['key'] in known)]
    for key in sorted({f['key'] for _, f in failures if f['key'] in known}):
        print(f'KNOWN-FINDING: property={pid} {known[key]}')
    outdir = os.path.join(VERIF, 'out')
    if violations:
        os.makedirs(outdir, exist_ok=True)
        shown = 0
        for n, (i, f) in enumerate(violations):
            if shown >= 5:
                break
            shown += 1
            name = os.path.join(outdir, f'{pid}-{n}.replay')
            with open(name, 'w') as g:
                g.write(f'job {i}\n{f["section"]}\n{f["path"]}\n\n# {f["msg"]}\n# {f["description"]}\n'
                        f'# replay: python3 tools/check.py {pid} --replay {name}{" --thorough" if thorough else ""}\n')
            print(f'section {f["section"]}: {f["msg"]}\n  case: {f["description"]}')
            print(f'VIOLATION property={pid} replay={name}', flush=True)

    total = lambda k: sum(r[k] for r in reports)  # noqa: E731
    samples = [s for r in reports for s in r['samples']][:24]
    executions = total('executions')
    coverage = {
        'states': total('states'),
        'transitions': total('steps'),
        'traces_validated_against_impl': executions,
        'samples': samples,
        'exhaustive': True,
        'sections': [dict(s, mode=jobs[r['job']].get('mode', 'debug')) for r in reports for s in r['sections']],
        'distinct_outcomes': sum(len(r['outcomes']) for r in reports),
        'outcomes': {k: v for r in reports for k, v in sorted(r['outcomes'].items(), key=lambda kv: -kv[1])[:60]},
        'unconfirmed_candidates': total('unconfirmed'),
        'build_s': round(t_build, 1),
        'rule': check['rule'],
    }
    if executions == 0 or any(s['executions'] == 0 for r in reports for s in r['sections']) or not all(r['sections'] for r in reports):
        problems.append('a section explored nothing')
    if problems and not violations: # with a violation there is an answer
        error('\n'.join(problems))
    evidence = {
        'property': pid,
        'tier': 'thorough' if thorough else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'model_checking',
        'coverage': coverage,
        'assumptions': check.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    print(f'{pid}: {executions} executions, {coverage["states"]} model states, {coverage["transitions"]} transitions, '
          f'{coverage["distinct_outcomes"]} outcome classes, {len(violations)} violations, {evidence["wall_s"]} s')
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
