#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE]

Builds the property's harness against /repo's current headers in several configurations (language standard, compiler,
assertions on/off, sanitizers), runs the generated cases, and writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line otherwise.
"""
import glob, json, os, shutil, subprocess, sys, time, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
# what is left uninitialized is the same garbage every time
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern']
CONFIGS = {
    # the two configurations the project tests, and the other compiler
    'gcc17-debug': ['g++', '-std=c++17', '-O1', '-g1', '-DNAZARA_DEBUG', '-Wno-terminate'] + SAN,
    'clang20-release': ['clang++', '-std=c++20', '-O2', '-g1', '-DNDEBUG'] + SAN,
    'gcc20-release': ['g++', '-std=c++20', '-O2', '-g1', '-DNDEBUG', '-Wno-terminate'] + SAN,
    'clang23-release': ['clang++', '-std=c++23', '-O2', '-g1', '-DNDEBUG'] + SAN,
    'clang17-debug': ['clang++', '-std=c++17', '-O1', '-g1', '-DNAZARA_DEBUG'] + SAN,
    # many small translation units
    'gcc17-plain': ['g++', '-std=c++17', '-O0', '-DNAZARA_DEBUG'],
    'clang20-plain': ['clang++', '-std=c++20', '-O0', '-DNDEBUG'],
    'gcc20-plain': ['g++', '-std=c++20', '-O0', '-DNDEBUG'],
    'clang23-plain': ['clang++', '-std=c++23', '-O1', '-DNAZARA_DEBUG'],
    'clang17-plain': ['clang++', '-std=c++17', '-O0', '-DNAZARA_DEBUG'],
    'gcc23-plain': ['g++', '-std=c++23', '-O1', '-DNDEBUG'],
    # data races
    'clang20-tsan': ['clang++', '-std=c++20', '-O1', '-g1', '-DNAZARA_DEBUG', '-fsanitize=thread', '-fno-omit-frame-pointer'],
    'gcc17-tsan': ['g++', '-std=c++17', '-O1', '-g1', '-DNDEBUG', '-Wno-terminate', '-fsanitize=thread', '-fno-omit-frame-pointer'],
    'clang17-tsan': ['clang++', '-std=c++17', '-O2', '-g1', '-DNDEBUG', '-fsanitize=thread', '-fno-omit-frame-pointer'],
}
QUICK = ['gcc17-debug', 'clang20-release']
THOROUGH = ['gcc17-debug', 'clang20-release', 'gcc20-release', 'clang17-debug', 'clang23-release']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def violation(pid, replay):
    print(f'VIOLATION property={pid} replay={replay}', flush=True)
    sys.exit(1)

def known_findings(pid):
    """KNOWN-FINDING entries: lines 'KNOWN-FINDING: property=<id> key=<key> <what fails>'"""
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('KNOWN-FINDING: property=' + pid + ' '):
                out.append(line.strip())
    return out

def main():
    t0 = time.time()
    args = sys.argv[1:]
    pid = args[0]
    if pid == '--self-test':
        # setup: the tools the checks need
        for cxx in ('g++', 'clang++'):
            subprocess.run([cxx, '--version'], check=True, stdout=subprocess.DEVNULL)
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    only = None
    scale = '1'
    configs = None
    fuzz_time = None
    i = 1
    while i < len(args):
        if args[i] == '--tier': tier = args[i + 1]
        elif args[i] == '--replay': replay = os.path.abspath(args[i + 1])
        elif args[i] == '--only': only = args[i + 1]
        elif args[i] == '--scale': scale = args[i + 1]
        elif args[i] == '--configs': configs = args[i + 1].split(',')
        elif args[i] == '--fuzz-time': fuzz_time = int(args[i + 1])
        else: sys.exit('unknown option ' + args[i])
        i += 2
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    meta = json.load(open(os.path.join(HERE, 'harness', 'harness.json')))[pid]
    if configs is None:
        configs = meta.get('configs_' + tier, meta.get('configs', QUICK if tier == 'quick' else THOROUGH))
    sources = sorted(glob.glob(os.path.join(HERE, 'harness', meta.get('sources', pid + '_*.cpp'))))
    assert sources or meta.get('generator'), 'no harness for ' + pid

    build = tempfile.mkdtemp(prefix='verif_' + pid + '_')
    try:
        return run(pid, tier, seed, meta, configs, sources, build, replay, only, scale, fuzz_time, t0)
    finally:
        shutil.rmtree(build, ignore_errors=True)

def run(pid, tier, seed, meta, configs, sources, build, replay, only, scale, fuzz_time, t0):
    repdir = os.path.join(HERE, 'replays')
    os.makedirs(repdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)

    gen = meta.get('generator')
    generated = []
    if gen:
        g = sh([sys.executable, os.path.join(HERE, 'harness', gen), build, str(seed), tier])
        if g.returncode != 0:
            print(g.stdout)
            sys.exit('generator failed')
        generated = sorted(glob.glob(os.path.join(build, 'gen_*.cpp')))

    if replay:
        want = [l.split(' ', 1)[1].strip() for l in open(replay) if l.startswith('config ')]
        if want and want[0] in CONFIGS:
            configs = [want[0]]
        elif want and want[0].startswith('fuzz'):
            configs = ['clang20-release']

    do_fuzz = tier == 'thorough' and meta.get('fuzz', True) and not replay
    jobs = []
    for cfg in configs:
        for src in sources + generated + [os.path.join(HERE, 'fw', 'pbt_main.cpp')]:
            jobs.append((cfg, src, os.path.join(build, cfg + '_' + os.path.basename(src) + '.o'), CONFIGS[cfg]))
    if do_fuzz:
        flags = ['clang++', '-std=c++17', '-O1', '-g1', '-DNAZARA_DEBUG', '-DPBT_FUZZER', '-fsanitize=fuzzer'] + SAN
        for src in sources + generated + [os.path.join(HERE, 'fw', 'pbt_main.cpp')]:
            jobs.append(('fuzz', src, os.path.join(build, 'fuzz_' + os.path.basename(src) + '.o'), flags))

    def compile_one(job):
        cfg, src, obj, flags = job
        cmd = flags + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'fw'), '-I' + os.path.join(HERE, 'harness'), '-I' + build] \
            + ['-DPBT_PROPERTY="%s"' % pid] + (['-DPBT_THOROUGH'] if tier == 'thorough' else []) + meta.get('flags', []) + ['-c', src, '-o', obj]
        r = sh(cmd)
        if r.returncode != 0:
            time.sleep(1)
            r = sh(cmd)
        return (job, cmd, r)

    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(compile_one, sorted(jobs, key=lambda j: -os.path.getsize(j[1]))))
    for job, cmd, r in results:
        if r.returncode == 0:
            continue
        # Does the toolchain itself work? Then the headers no longer accept (or no longer satisfy) what the harness states.
        probe = sh([cmd[0], '-x', 'c++', '-fsyntax-only', '-'], input='#include <vector>\n#include <string>\nint main() {}\n')
        print(r.stdout[:6000])
        if probe.returncode != 0 or 'Killed' in r.stdout or 'No space left' in r.stdout or 'internal compiler error' in r.stdout:
            print('the toolchain is not usable')
            sys.exit(2)
        path = os.path.join(repdir, pid + '-compile.txt')
        with open(path, 'w') as f:
            f.write('property %s\nconfig %s\ncompile %s\n\n%s\n' % (pid, job[0], ' '.join(cmd), r.stdout[:20000]))
            if os.path.basename(job[1]).startswith('gen_'):
                f.write('\n--- source\n' + open(job[1]).read()[:200000])
        print('the statements of %s do not compile against the current headers' % os.path.basename(job[1]))
        violation(pid, path)

    def link_one(cfg):
        objs = [j[2] for j in jobs if j[0] == cfg]
        flags = ['clang++', '-fsanitize=fuzzer'] + SAN if cfg == 'fuzz' else CONFIGS[cfg]
        return sh(flags + objs + ['-o', os.path.join(build, 'bin_' + cfg), '-lpthread'])
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(link_one, configs + (['fuzz'] if do_fuzz else [])):
            if r.returncode != 0:
                print(r.stdout[:4000])
                if any(w in r.stdout for w in ('multiple definition', 'duplicate symbol', 'undefined reference', 'undefined symbol')):
                    path = os.path.join(repdir, pid + '-link.txt')
                    with open(path, 'w') as f:
                        f.write('property %s\nthe translation units using the headers cannot be linked\n\n%s\n' % (pid, r.stdout[:20000]))
                    violation(pid, path)
                print('link failed')
                sys.exit(2)

    if replay:
        r = subprocess.run([os.path.join(build, 'bin_' + configs[0]), '--replay', replay])
        sys.exit(r.returncode)

    t_build = time.time() - t0
    per = []
    # the configurations run one after another, each on every core
    cap = meta.get('cap_' + tier, 150 if tier == 'quick' else 600)
    for cfg in configs:
        out = os.path.join(build, cfg + '.json')
        rep = os.path.join(repdir, '%s-%s.txt' % (pid, cfg))
        attempts = 0
        while True:
            attempts += 1
            if os.path.exists(rep):
                os.remove(rep)
            cmd = [os.path.join(build, 'bin_' + cfg), '--seed', str(seed), '--tier', tier, '--workers', str(min(8, os.cpu_count() or 8)), '--cap', str(cap),
                   '--out', out, '--replay-out', rep, '--property', pid, '--config', cfg, '--scale', scale]
            if only:
                cmd += ['--only', only]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            sys.stdout.write(r.stdout)
            sys.stdout.flush()
            if r.returncode == 3 and attempts < 3:
                print('note: a failure that could not be repeated; the run is made again')
                continue
            break
        if r.returncode == 1:
            sys.exit(1)
        if r.returncode == 3 and 'killed by signal 9' not in r.stdout:
            # each of three runs failed, at cases which pass when run alone: behaviour that depends on uninitialised or stale memory
            with open(rep, 'w') as f:
                f.write('property %s\nconfig %s\nseed %d\nevery run of the generated cases with this seed fails, at a case that passes alone\n\n%s' % (pid, cfg, seed, r.stdout[:5000]))
            violation(pid, rep)
        if r.returncode != 0:
            print('harness ended with', r.returncode)
            sys.exit(2)
        if os.path.exists(out):
            per.append(json.load(open(out)))

    fuzz_info = None
    if do_fuzz:
        fuzz_info = fuzz(pid, build, repdir, seed, fuzz_time or meta.get('fuzz_time', 120), configs)

    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration'}
    tags, targets = {}, {}
    samples = []
    for p in per:
        for k, v in p['tags'].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in p['targets'].items():
            targets[p['config'] + ':' + k] = v[0]
    for p in per[:1]:
        samples += p['samples']
    cov = {
        'evaluations': sum(p['evaluations'] for p in per),
        # the same generated cases run in each configuration: distinct ones are counted once
        'distinct_nontrivial': max([p['distinct_nontrivial'] for p in per] or [0]),
        'nontrivial_evaluations': sum(p['nontrivial'] for p in per),
        'rule': meta['rule'],
        'samples': samples[:6] or ['(no trace)'],
        'classes': tags,
        'cases_per_target': targets,
        'configurations': [p['config'] for p in per],
        'truncated_by_time': any(p['truncated'] for p in per),
        'oracle': meta.get('oracle', ''),
    }
    if fuzz_info:
        cov['coverage_guided'] = fuzz_info
    ev['coverage'] = cov
    ev['assumptions'] = meta.get('assumptions', [])
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['build_s'] = round(t_build, 2)
    ev['violations'] = 0
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for line in known_findings(pid):
        print(line)
    print('%s held: %d cases (%d distinct non-trivial) in %.0f s (build %.0f s)' % (pid, cov['evaluations'], cov['distinct_nontrivial'], ev['wall_s'], t_build))
    return 0

def fuzz(pid, build, repdir, seed, seconds, configs):
    """coverage-guided campaign on the same case functions (the input bytes are the choices)"""
    binary = os.path.join(build, 'bin_fuzz')
    corpus = os.path.join(build, 'corpus')
    os.makedirs(corpus)
    # starting inputs of several lengths, for every target
    import random
    rnd = random.Random(seed)
    for k in range(64):
        with open(os.path.join(corpus, 'seed%d' % k), 'wb') as f:
            f.write(bytes([k]) + bytes(rnd.randrange(256) for _ in range(rnd.choice([16, 64, 256, 1024]))))
    procs = []
    for k in range(8):
        art = os.path.join(build, 'art%d_' % k)
        log = open(os.path.join(build, 'fuzzlog%d' % k), 'w')
        procs.append((subprocess.Popen([binary, corpus, '-seed=%d' % (seed * 8 + k + 1), '-max_total_time=%d' % seconds, '-max_len=2048', '-artifact_prefix=' + art,
                      '-reload=1', '-timeout=30', '-rss_limit_mb=3000', '-print_final_stats=1', '-detect_leaks=0', '-len_control=0'], stdout=log, stderr=log), art))
    for p, _ in procs:
        try:
            p.wait(seconds + 120)
        except subprocess.TimeoutExpired:
            p.kill()
    execs = 0
    cover = 0
    for k in range(8):
        for line in open(os.path.join(build, 'fuzzlog%d' % k), errors='replace'):
            if 'stat::number_of_executed_units' in line:
                execs += int(line.split(':')[-1])
            if ' cov: ' in line:
                cover = max(cover, int(line.split(' cov: ')[1].split()[0]))
    for art in sorted(glob.glob(os.path.join(build, 'art*_*'))):
        if 'crash-' not in art and 'timeout-' not in art:
            continue
        dump = os.path.join(build, 'dump.txt')
        if os.path.exists(dump):
            os.remove(dump)
        sh([binary, art], env=dict(os.environ, PBT_FUZZ_DUMP=dump))
        if not os.path.exists(dump):
            continue
        body = open(dump).read()
        for cfg in configs:
            rep = os.path.join(repdir, '%s-fuzz-%s.txt' % (pid, cfg))
            with open(rep, 'w') as f:
                f.write('property %s\nconfig %s\n%s' % (pid, cfg, body))
            fails = [subprocess.run([os.path.join(build, 'bin_' + cfg), '--replay', rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace') for _ in range(3)]
            if all(r.returncode == 1 for r in fails):
                print(fails[0].stdout[:5000])
                violation(pid, rep)
            os.remove(rep)
    return {'executions': execs, 'edges_covered': cover, 'seconds': seconds, 'processes': 8}

if __name__ == '__main__':
    sys.exit(main())
