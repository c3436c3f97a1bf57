#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's working tree (VERIF_TIER quick|thorough, VERIF_SEED)
   check.py --replay FILE  compare one recorded case again
"""
import hashlib, json, os, random, shutil, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import engine, inputs, plans, session, models          # noqa


def known():
    p = os.path.join(HERE, 'known_findings.jsonl')
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []


def texts(e):
    return [e] if isinstance(e, str) else e['xs']


def suppress(pid, entry, cat):
    for k in known():
        if k['status'] == 'open' and k['property'] == pid and k['input'] in texts(entry) and k['category'] == cat:
            return k
    return None


def relevant(pid, cat):
    return cat in plans.PLANS[pid][1]


def save(pid, entry, cat, path):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(property=pid, entry=entry, category=cat, path=path), ensure_ascii=True)
    f = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha1(body.encode()).hexdigest()[:12]))
    open(f, 'w').write(body + '\n')
    return f


def evidence(pid, tier, seed, cov, t0, violations, assumptions):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=assumptions,
                   wall_s=round(time.time() - t0, 1), violations=violations),
              open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)


def confirm(pkg, decl, scratch, cases):
    """the disagreements again, each on a library instance of its own"""
    if not cases:
        return []
    uniq, out = [], []
    for e, c, p in cases:
        if e not in uniq:
            uniq.append(e)
    found, _, _, _ = engine.conform(pkg, decl, uniq, scratch, 'again')
    keys = {(json.dumps(e), c) for e, c, _ in found}
    return [x for x in cases if (json.dumps(x[0]), x[1]) in keys]


def main(pid):
    t0 = time.time()
    tier, seed = os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1'))
    scratch = engine.scratch_dir()
    try:
        if pid == 'C18':
            return session.check(pid, tier, seed, scratch, t0, evidence, save)
        plan, cats, starts = plans.PLANS[pid]
        model = models.start(pid, tier, seed, scratch)
        gen = engine.derive(scratch, seed, 120 if tier == 'quick' else 900, 4 if tier == 'quick' else 6, starts, 600 if tier == 'quick' else 9000)
        pkg, decl = engine.build(scratch)
        fresh = gen()
        x = plans.Inputs(tier, seed, fresh)
        limit = int(os.environ.get('VERIF_LIMIT', '0'))
        seen, entries = set(), []
        for e in plan(x):
            k = e if isinstance(e, str) else json.dumps(e)
            if k not in seen:
                seen.add(k)
                entries.append(e)
        random.Random(seed).shuffle(entries)
        if limit:
            entries = entries[:limit]
        t1 = time.time()
        found, tot, types, st = engine.conform(pkg, decl, entries, scratch)
        mstat = models.finish(model)
        mine = [v for v in found if v[1] in cats]
        mine.sort(key=lambda v: sum(len(s) for s in texts(v[0])))
        mine = confirm(pkg, decl, scratch, mine[:40])
        bad = [v for v in mine if not suppress(pid, v[0], v[1])]
        n = 0
        for k in known():
            if k['property'] == pid and k['status'] == 'open' and reproduces(pkg, decl, scratch, k, n):
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            n += 1
        cov = dict(states=st[1] + mstat['states'], transitions=st[0] + mstat['transitions'],
                   traces_validated_against_impl=sum(tot.values()) - tot.get('skip', 0),
                   evaluations=len(entries), distinct_nontrivial=sum(tot.values()) - tot.get('skip', 0),
                   rule='distinct inputs (texts, or groups of related texts) of this run; skipped ones (a precondition of the relation is not met) do not count',
                   outcomes=tot, fresh_derivations=len(fresh), node_types_met=len(types), model=mstat, seconds_comparing=round(time.time() - t1, 1),
                   categories=sorted(cats), samples=[e for e in entries[:8]])
        evidence(pid, tier, seed, cov, t0, len(bad), ASSUME)
        for e, c, p in bad[:5]:
            print('VIOLATION property=%s replay=%s' % (pid, save(pid, e, c, p)))
            print('  %s %s: %s' % (c, '/'.join(p), json.dumps(e)[:400]))
        print('%s: %d inputs (%s), %d disagreements of this property, %.0f s' % (pid, len(entries), tier, len(bad), time.time() - t0))
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def reproduces(pkg, decl, scratch, k, n):
    found, _, _, _ = engine.conform(pkg, decl, [k['input']], scratch, 'known%d' % n, limit=6)
    return any(c == k['category'] for _, c, _ in found)


ASSUME = ['inputs outside the enumerated and generated ones are not covered', 'TLC, Node.js, wasm-bindgen and rustc are trusted',
          'texts that the specification classifies as outside the language are only held to the properties that cover all texts']


def replay(f):
    r = json.load(open(f))
    scratch = engine.scratch_dir()
    try:
        if r['property'] == 'C18':
            return session.replay(r, scratch)
        pkg, decl = engine.build(scratch)
        found, tot, _, _ = engine.conform(pkg, decl, [r['entry']], scratch)
        for e, c, p in found:
            print(c, '/'.join(p), json.dumps(e)[:2000])
        hit = [v for v in found if v[1] in plans.PLANS[r['property']][1]]
        if hit:
            print('VIOLATION property=%s replay=%s' % (r['property'], f))
        return 1 if hit else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay':
            sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1]))
    except engine.Broken as e:
        print('no answer: %s' % e)
        sys.exit(2)
