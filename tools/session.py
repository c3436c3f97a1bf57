"""C18: the library has no memory.  Histories come from spec/History.tla, answers are judged by spec/Session.tla."""
import json, os, random, subprocess, sys, time
import engine, inputs as I

FIXED = {
    'ok': ['SELECT 1', 'SELECT a, b FROM t WHERE c = 1;', 'INSERT t VALUES (1)', 'CREATE TABLE t (a ARRAY<STRUCT<b INT64>>)', 'BEGIN SELECT 1; END', 'SELECT 2',
           'SELECT x FROM p-q.d.t', 'FROM t |> WHERE a', 'SELECT `a b`', 'SELECT @p, ?', "SELECT '''m\nl''' AS x", 'SELECT {{v}}', 'l: LOOP BREAK l; END LOOP l;',
           'SELECT ((1))', 'SELECT * FROM (a JOIN b)', 'select 1', 'SELECT  1', '\nSELECT 1', 'SELECT a.b.c', 'SELECT 1.5e3', 'SELECT CASE WHEN a THEN b END', 'SELECT 1; SELECT 2; SELECT 3'],
    'open': ["SELECT 'a", 'SELECT `a', '/* c', "SELECT '''a'", '{{ a', 'SELECT @', 'SELECT "a\\"', "CAST(a AS ARRAY<STRUCT<'"],
    'reject': ['SELECT FROM )', 'CREATE x', 'SELECT 1 )', 'a b c', 'ALTER 1', 'SELECT (1', 'DROP', 'END', 'SELECT * FROM (SELECT 1', 'IF a THEN'],
    'type': ['SELECT CAST(a AS ARRAY<', 'CREATE TABLE t (a STRUCT<b', 'SELECT ARRAY<INT64', 'STRUCT<STRUCT<STRUCT<', 'DECLARE a RANGE<', 'SELECT ARRAY<ARRAY<INT64>'],
    'angle': ['SELECT a >> b', 'SELECT a >= b', 'SELECT a > b > c', 'SELECT 1 << 2 >> 3', 'SELECT a >>= b', 'FROM t |> WHERE a >= 1', 'SELECT f(a => 1) >> 2'],
    'early': ['SELECT', 'SELECT a,', 'INSERT t', 'BEGIN', 'CREATE TABLE', 'SELECT a FROM', 'WITH', 'MERGE t'],
    'empty': ['', ' ', '\n\n', '-- c', ';', '/**/'],
    'comment': ['-- a\nSELECT 1 -- b\n', '/* x */ SELECT /* y */ 1 /* z */;', 'SELECT 1 # c', '# a\n# b\nSELECT a -- c\n, b -- d\n;', 'SELECT 1 -- b', '-- a\n-- b\n'],
}

VARIANTS = ['same', 'spaced', 'cased', 'edited', 'swapped', 'longer', 'shorter']


def histories(scratch, tier):
    runs = [(3, 1), (3, 2)] if tier == 'quick' else [(3, 1), (3, 2), (4, 2)]
    out, st = [], [0, 0]
    ps = [engine.tlc('History', scratch, dict(HDEPTH=d, HINST=i), 'hist%d%d' % (d, i), workers=2) for d, i in runs]
    for p, o in ps:
        text = engine.finish(p, o, 'History')
        a, b = engine.states(text)
        st[0] += a
        st[1] += b
        out += [json.loads(json.loads(l)[2:]) for l in text.splitlines() if l.startswith('"H ')]
    return out, st


def variant(t, how, r):
    """a text related to t"""
    if how == 'spaced':
        return r.choice(['\n' + t, t + '\n', '  ' + t, t + ' ', '\n\n ' + t + '\n'])
    if how == 'cased':
        return r.choice([t.lower(), t.upper(), t.swapcase()])
    if how == 'edited' and t:
        i = r.randrange(len(t))
        return t[:i] + ('b' if t[i] == 'a' else '2' if t[i] == '1' else 'a' if t[i].isalpha() else '1' if t[i].isdigit() else t[i] + ' ') + t[i + 1:]
    if how == 'swapped' and len(t) > 1:     # the same characters in another order
        at = [i for i in range(len(t) - 1) if t[i].isalnum() and t[i + 1].isalnum() and t[i] != t[i + 1]] or [0]
        i = r.choice(at)
        return t[:i] + t[i + 1] + t[i] + t[i + 2:]
    if how == 'longer':
        return t + r.choice([';', ' -- c', ' ; SELECT 1', ' x', ' )', '\n'])
    if how == 'shorter':
        return t[:r.choice([len(t) // 2, max(0, len(t) - 1)])]
    return t


def script(hs, seed, tier, fresh=()):
    """texts, and histories over text numbers"""
    r = random.Random(seed * 77 + 5)
    cls = {k: list(v) for k, v in FIXED.items()}
    base = [I.plain(t) for t in I.derived()] + I.upstream() + I.curated()
    cls['ok'] += r.sample(base, min(len(base), 120 if tier == 'quick' else 600)) + [I.plain(t) for t in list(fresh)[:100]]
    # long ones among those that get related texts, too
    wide = [t for t in base if len(t) > 130]
    cls['ok'][8:8] = r.sample(wide, 5) + [t for t in I.sizes(tier) if len(t) < 2500][::4]
    for t in r.sample(base, min(len(base), 40)):
        cls['reject'].append(t + ' )')
        cls['early'].append(t[:len(t) // 2])
        cls['comment'].append('-- lead\n' + t + ' /* in */ -- trail\n')
    # related texts, for a limited number of origins (every text is also called on an instance of its own)
    rel = {}
    for k, v in cls.items():
        for t in v[:22 if tier == 'quick' else 60]:
            rel[t] = {how: sorted({variant(t, how, r) for _ in range(2)}) for how in VARIANTS}
    texts = sorted({u for d in rel.values() for us in d.values() for u in us} | {t for v in cls.values() for t in v})
    num = {t: i + 1 for i, t in enumerate(texts)}
    pick = {k: [num[t] for t in v] for k, v in cls.items()}
    out = []
    for f in ('tokenize', 'parse'):           # every call on an instance of its own first
        out += [[dict(e='call', f=f, x=i + 1, i=1)] for i in range(len(texts))]

    origin = {k: [num[t] for t in v if t in rel] for k, v in cls.items()}

    def conc(h):
        out, base, at = [], None, 0
        near = any(ev['c'] in VARIANTS for ev in h)
        for ev in h:
            c, x = ev['c'], 0
            if c in VARIANTS:       # related to the origin of the call before; back to the origin itself every other time
                d = rel[texts[base - 1]][c]
                x = num[r.choice(d)]
                x = base if x == at and c != 'same' else at if c == 'same' else x
            elif c:
                x = base = r.choice(origin[c] if near else pick[c])
            at = x or at
            out.append(dict(e=ev['e'], f=ev['op'], x=x, i=ev['i']))
        return out
    limit = 9000 if tier == 'quick' else 60000
    chosen = hs if len(hs) <= limit else r.sample(hs, limit)
    out += [conc(h) for h in chosen]
    # long ones: many calls on one instance, repeating some texts
    for n in ([2000, 2000, 2000, 2000] if tier == 'quick' else [20000] * 10):
        few = r.sample(range(1, len(texts) + 1), min(len(texts), r.choice([3, 12, 60, len(texts)])))
        out.append([dict(e='call', f=r.choice(['parse', 'tokenize']), x=r.choice(few), i=1) for _ in range(n)])
    # the same failing call many times, then calls that succeed
    for c in ('open', 'reject', 'type', 'early', 'ok'):
        for x in r.sample(pick[c], min(len(pick[c]), 5 if tier == 'quick' else 20)):
            out.append([dict(e='call', f='parse', x=x, i=1)] * 260 + [dict(e='call', f=f, x=r.choice(pick[k]), i=1) for k in ('ok', 'angle', 'comment') for f in ('parse', 'tokenize')])
    # a text, a related one, and the text again
    for t in rel:
        for how in VARIANTS:
            for u in rel[t][how]:
                for f in ('tokenize', 'parse'):
                    out.append([dict(e='call', f=f, x=x, i=1) for x in (num[t], num[u], num[t])])
    # texts of the same length, or differing in one place only, one after the other
    bylen = {}
    for t in texts:
        bylen.setdefault(len(t), []).append(num[t])
    for v in bylen.values():
        if len(v) > 1:
            for f in ('tokenize', 'parse'):
                out.append([dict(e='call', f=f, x=x, i=1) for x in v + v[::-1]])
    return dict(texts=texts, histories=out)


def split(data, k):
    n = 2 * len(data['texts'])      # the base is in every part
    base, rest = data['histories'][:n], data['histories'][n:]
    return [dict(texts=data['texts'], histories=base + rest[i::k]) for i in range(k)]


def play(pkg, data, scratch, tag, limit=60):
    """-> (violations [(history, texts, what)], calls, (states, distinct))"""
    d = os.path.join(scratch, 'sess' + tag)
    os.makedirs(d, exist_ok=True)
    inp, rec = os.path.join(d, 'in'), os.path.join(d, 'rec')
    json.dump(data, open(inp, 'w'))
    p = subprocess.Popen(['node', '--stack-size=3900', '--wasm-max-mem-pages=12288', os.path.join(engine.HERE, 'tools', 'record_session.js'), pkg, inp, rec],
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    size, since = -1, time.time()
    while True:
        try:
            p.wait(timeout=.2)
            break
        except subprocess.TimeoutExpired:
            pass
        s = os.path.getsize(rec) if os.path.exists(rec) else 0
        if s != size:
            size, since = s, time.time()
        elif time.time() - since > limit:
            p.kill()
            raise Stuck(data, rec)
    if p.returncode:
        raise engine.Broken('session recorder: ' + p.stderr.read()[-1500:])
    log = [json.loads(l) for l in open(rec)]
    q, out = engine.tlc('Session', scratch, dict(TRACE=rec), 'sess' + tag, heap='4g')
    text = engine.finish(q, out, 'Session')
    bad = []
    for line in text.splitlines():
        if line.startswith('"V '):
            n, what = json.loads(json.loads(line)[2:])
            bad.append((data['histories'][log[n - 1]['h'] - 1], what))
    return bad, sum(1 for e in log if e['e'] == 'call'), engine.states(text)


class Stuck(Exception):
    pass


def parallel(pkg, parts, scratch):
    import threading
    res, err = [None] * len(parts), []

    def one(i):
        try:
            res[i] = play(pkg, parts[i], scratch, str(i))
        except Exception as e:      # noqa
            err.append(e)
    ts = [threading.Thread(target=one, args=(i,)) for i in range(len(parts))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0]
    return res


def concrete(data, h):
    return [dict(ev, text=data['texts'][ev['x'] - 1]) if ev['e'] == 'call' else ev for ev in h]


def alone(data, h):
    """only the texts of one history, each first on an instance of its own, then the history"""
    ts = sorted({ev['x'] for ev in h if ev['e'] == 'call'})
    num = {x: i + 1 for i, x in enumerate(ts)}
    hs = [[dict(e='call', f=f, x=i + 1, i=1)] for f in ('tokenize', 'parse') for i in range(len(ts))]
    hs.append([dict(ev, x=num.get(ev['x'], 0)) for ev in h])
    return dict(texts=[data['texts'][x - 1] for x in ts], histories=hs)


def check(pid, tier, seed, scratch, t0, evidence, save):
    pkg, _ = engine.build(scratch)
    hs, st = histories(scratch, tier)
    data = script(hs, seed, tier)
    parts = split(data, 6 if tier == 'quick' else engine.CORES)
    try:
        res = parallel(pkg, parts, scratch)
    except Stuck:
        raise engine.Broken('a call does not return (see C04)')
    bad = []
    for (b, _, _), part in zip(res, parts):
        for h, what in b:
            bad.append((alone(part, h), what))
    bad.sort(key=lambda x: len(x[0]['histories'][-1]))
    # again, on its own: histories that show it when repeated alone are preferred
    sure = []
    for n, (d, what) in enumerate(bad[:6]):
        if play(pkg, d, scratch, 'again%d' % n)[0]:
            sure.append((d, what))
    sure = sure or bad[:1]
    calls = sum(r[1] for r in res)
    cov = dict(states=sum(r[2][1] for r in res) + st[1], transitions=sum(r[2][0] for r in res) + st[0],
               traces_validated_against_impl=sum(len(p['histories']) for p in parts), calls=calls, texts=len(data['texts']),
               evaluations=len(data['histories']), distinct_nontrivial=len(data['histories']),
               rule='histories of calls; every text is also called on an instance of its own, which fixes the expected answer',
               samples=[concrete(data, h) for h in data['histories'][-40:] if len(h) < 6][:4] or [concrete(data, data['histories'][2 * len(data['texts'])])])
    evidence(pid, tier, seed, cov, t0, len(sure), ['histories are bounded as described in DESIGN.md', 'one thread (the library is single threaded WebAssembly)'])
    for d, what in sure[:5]:
        print('VIOLATION property=%s replay=%s' % (pid, save(pid, d, what, [])))
        print('  %s: %s' % (what, json.dumps(concrete(d, d['histories'][-1]))[:400]))
    print('%s: %d histories, %d calls (%s), %d violations, %.0f s' % (pid, len(data['histories']), calls, tier, len(sure), time.time() - t0))
    return 1 if sure else 0


def replay(r, scratch):
    pkg, _ = engine.build(scratch)
    bad, _, _ = play(pkg, r['entry'], scratch, 'replay')
    for h, what in bad:
        print(what, json.dumps(concrete(r['entry'], h))[:2000])
    if bad:
        print('VIOLATION property=C18 replay')
    return 1 if bad else 0
