"""Builds the library from /repo, records what it does, and has TLC compare the record with the specification."""
import concurrent.futures, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
SPEC = os.path.join(HERE, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = max(2, min(8, os.cpu_count() or 8))
STALL = 20          # seconds without progress before a call counts as not returning (the first one is confirmed by a second try)
SHARD = 6000        # entries in one log: a longer one fills the heap of the process that reads it
HANGS = 3           # that many in one log: the rest of the log is left out


class Broken(Exception):
    """the machinery could not give an answer"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(scratch):
    """wasm package of the library at /repo's working tree; returns (package dir, declarations file)"""
    env = dict(os.environ, RUSTUP_TOOLCHAIN='1.98.0', CARGO_NET_OFFLINE='true')
    env.pop('CARGO_TARGET_DIR', None)
    target = os.path.join(BUILD, 'target')
    os.makedirs(target, exist_ok=True)
    p = subprocess.run(['cargo', 'build', '--release', '--lib', '--offline', '--locked', '--target', 'wasm32-unknown-unknown',
                        '--target-dir', target, '-q'], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken('cargo build failed:\n' + p.stdout[-3000:])
    pkg = os.path.join(scratch, 'pkg')
    p = subprocess.run(['/opt/vp/wbg/bin/wasm-bindgen', '--target', 'nodejs', '--out-dir', pkg,
                        os.path.join(target, 'wasm32-unknown-unknown/release/bq2cst.wasm')],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken('wasm-bindgen failed:\n' + p.stdout[-3000:])
    decl = os.path.join(scratch, 'decl.json')
    p = subprocess.run(['node', os.path.join(HERE, 'tools/decl.js'), os.path.join(pkg, 'bq2cst.d.ts'), decl],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken('declarations unreadable:\n' + p.stdout[-2000:])
    return pkg, decl


def tlc(module, scratch, env, name, workers=1, heap='2500m', timeout=None, extra=(), config=None):
    """start TLC on a module of spec/; returns (Popen, output file)"""
    d = os.path.join(scratch, 'tlc-' + name)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'out')
    cmd = ['java', '-Xss512m', '-Xmx' + heap, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d,
           '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE',
           '-config', config or module + '.cfg', *extra, module + '.tla']
    if timeout:
        cmd = ['timeout', str(timeout)] + cmd
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    return subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=open(out, 'w'), stderr=subprocess.STDOUT), out


def finish(p, out, what):
    p.wait()
    text = open(out).read()
    if 'Model checking completed. No error has been found.' not in text:
        raise Broken('%s: TLC did not finish (%s)\n%s' % (what, p.returncode, text[-3000:]))
    return text


def states(text):
    """(states generated, distinct states) as TLC counted them"""
    for line in text.splitlines():
        if ' states generated, ' in line and 'distinct states found' in line and 'left on queue' in line:
            w = line.replace(',', '').split()
            return int(w[0]), int(w[3])
    return 0, 0


# ---------------------------------------------------------------- generation from the specification
def derive(scratch, seed, seconds, procs, starts=(), count=100000):
    """random derivations of the grammar, started now; call the result to collect them (token lists)"""
    ps, path = [], ''
    if starts:
        path = os.path.join(scratch, 'starts.json')
        json.dump(list(starts), open(path, 'w'))
    for i in range(procs):
        ps.append(tlc('GenRandom', scratch, dict(GSEED=seed * 64 + i, GCOUNT=count, GSTART=path, GSALT=i * 7919),
                      'gen%d' % i, timeout=seconds))

    def collect():
        seen = {}
        for p, out in ps:
            p.wait()
            for line in open(out):
                if line.startswith('"G '):
                    try:
                        s = json.loads(line)
                        seen.setdefault(tuple(json.loads(s[4:])), None)
                    except ValueError:      # cut off by the time limit
                        pass
        return [list(t) for t in seen]

    def stop():
        for p, _ in ps:
            if p.poll() is None:
                p.terminate()
    collect.stop = stop
    return collect


# ---------------------------------------------------------------- recording
def record(pkg, inp, out, limit=STALL, script='record.js'):
    """run the recorder over a file of inputs; calls that never return, or end the process, are recorded as such.
    Returns how many entries were recorded: all of them, unless too many calls do not return."""
    n = sum(1 for l in open(inp) if l.strip())
    hang, first, tries = [], 0, {}
    open(out, 'w').close()
    while True:
        p = subprocess.Popen(['node', '--stack-size=3900', '--wasm-max-mem-pages=12288', os.path.join(HERE, 'tools', script), pkg, inp, out, str(first),
                              ','.join(map(str, hang))], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        size, since, killed = -1, time.time(), False
        while True:
            try:
                p.wait(timeout=.2)
                break
            except subprocess.TimeoutExpired:
                pass
            s = os.path.getsize(out)
            if s != size:
                size, since = s, time.time()
            elif time.time() - since > limit:
                p.kill()
                p.wait()
                killed = True
                break
        data = open(out, 'rb').read()
        if not data.endswith(b'\n') and data:
            data = data[:data.rfind(b'\n') + 1]
            open(out, 'wb').write(data)
        done = data.count(b'\n')
        if done >= n:
            return n
        if not killed and p.returncode == 0:
            raise Broken('recorder stopped early at %d of %d' % (done, n))
        if len(hang) >= HANGS:
            return done
        tries[done] = tries.get(done, 0) + 1
        if tries[done] >= 2 or hang:
            hang.append(done)
        first = done


def shards(entries, k):
    return [entries[i::k] for i in range(k)]


def conform(pkg, decl, entries, scratch, tag='', limit=STALL):
    """-> (verdicts [(entry, category, path)], totals, node types, (states, distinct))"""
    k = max(1, min(CORES, len(entries) // 40 + 1), len(entries) // SHARD + 1)
    parts = shards(entries, k)
    results, errors, sizes = [None] * k, [], [0] * k

    def one(i):
        try:
            d = os.path.join(scratch, 'shard%s%d' % (tag, i))
            os.makedirs(d, exist_ok=True)
            inp, rec = os.path.join(d, 'in'), os.path.join(d, 'rec')
            with open(inp, 'w') as f:
                for e in parts[i]:
                    f.write(json.dumps(e) + '\n')
            sizes[i] = record(pkg, inp, rec, limit)
            p, out = tlc('Conform', scratch, dict(TRACE=rec, DECL=decl, READERS=1), 'conform%s%d' % (tag, i))
            text = finish(p, out, 'Conform')
            os.unlink(rec)
            results[i] = text
        except Exception as e:       # noqa
            errors.append(e)

    with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
        list(pool.map(one, range(k)))
    if errors:
        raise errors[0]
    found, tot, types, st = [], {}, set(), [0, 0]
    for i, text in enumerate(results):
        a, b = states(text)
        st[0] += a
        st[1] += b
        for line in text.splitlines():
            if line.startswith('"V '):
                n, cat, path = json.loads(json.loads(line)[2:])
                found.append((parts[i][n - 1], cat, path))
            elif line.startswith('"N '):
                d = json.loads(json.loads(line)[2:])
                for c, v in d['cnt'].items():
                    tot[c] = tot.get(c, 0) + v
                types |= set(d['types'])
    if sum(tot.values()) != sum(sizes):
        raise Broken('only %d of %d entries were compared' % (sum(tot.values()), sum(sizes)))
    return found, tot, types, st


def scratch_dir():
    os.makedirs(BUILD, exist_ok=True)
    return tempfile.mkdtemp(prefix='run-', dir=BUILD)
