"""Model checking of the specification itself (no library involved)."""
import json, os
import engine, inputs

INVARIANTS = 'LosslessInv AcceptInv TotalInv CommentInv PrecInv ComposeInv BlockInv'.split()
LEXINV = 'PartitionInv CoverInv ErrorInv ProgressInv TrailInv OpenInv Forward'.split()
PARTS = 30
# the invariants that state the property (or what it rests on); the thorough run checks all of them
FOR = dict(C01=['LosslessInv'], C04=['TotalInv'], C05=['AcceptInv', 'TotalInv'], C06=['CommentInv'], C07=['CommentInv', 'AcceptInv'], C10=['PrecInv', 'AcceptInv'],
           C11=['ComposeInv', 'BlockInv'])


def sym(ch):
    c = ord(ch)
    return ch if 32 <= c < 127 or c in (9, 10, 13) else '<U+%04X>' % c


def start(pid, tier, seed, scratch):
    """quick: one part of the derivations (or two alphabets); thorough: all of them"""
    n = int(pid[1:])
    if pid in ('C02', 'C03'):
        names, runs = sorted(inputs.LEXICAL), []
        if tier == 'quick':
            names = [names[(seed * 5 + n + k * 7) % len(names)] for k in range(2)]
        for name in names:
            alpha, q, t = inputs.LEXICAL[name]
            f = os.path.join(scratch, 'alpha-%s.json' % name)
            json.dump([[sym(c) for c in w] for w in alpha], open(f, 'w'))
            runs.append(('LexMC', dict(ALPHA=f, MAXLEN=min(q, 4) if tier == 'quick' else q, GPART=0, GPARTS=1), 'lexmc-' + name))
        what = dict(module='LexMC', invariants=LEXINV, alphabets=names)
    else:
        inv = FOR.get(pid, ['AcceptInv', 'LosslessInv']) if tier == 'quick' else INVARIANTS
        part, parts = ((n * 7 + seed * 11) % PARTS, PARTS) if tier == 'quick' else (0, 1)
        cfg = os.path.join(scratch, 'Model.cfg')
        open(cfg, 'w').write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS ' + ' '.join(inv) + '\n')
        runs = [('Model', dict(GBUDGET=1, GPART=part, GPARTS=parts, GPRINT=0), 'model')]
        what = dict(module='Model', invariants=inv, budget=1, part='%d of %d' % (part, parts))
    w = 1 if pid in ('C02', 'C03') else 2 if tier == 'quick' else engine.CORES
    return what, [engine.tlc(m, scratch, e, name, workers=w, config=cfg if m == 'Model' else None) + (name,) for m, e, name in runs]


def finish(model):
    what, runs = model
    a = b = 0
    for p, out, name in runs:
        text = engine.finish(p, out, 'model ' + name)
        g, d = engine.states(text)
        a, b = a + g, b + d
    return dict(what, states=b, transitions=a)
