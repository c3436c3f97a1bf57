"""Per property: which inputs are tried and which disagreements with the specification break it."""
import itertools, random
import inputs as I
import templates

DML = ['INSERT', 'DELETE', 'TRUNCATE', 'UPDATE', 'MERGE']
DDL = ['CREATE', 'ALTER', 'DROP', 'UNDROP']
QUERY = ['SELECT', 'WITH', '(', 'FROM']
OTHER = ['GRANT', 'REVOKE', 'DECLARE', 'SET', 'EXECUTE', 'IF', 'BEGIN', 'CASE', 'LOAD', 'LOOP', 'REPEAT', 'WHILE', 'BREAK', 'LEAVE', 'CONTINUE',
         'ITERATE', 'FOR', 'COMMIT', 'ROLLBACK', 'RAISE', 'RETURN', 'CALL', 'ASSERT', 'EXPORT', 'x']
TYPEWORDS = {'ARRAY', 'STRUCT', 'RANGE', 'CAST', 'SAFE_CAST', 'RETURNS', 'DECLARE', 'INOUT', 'OUT', 'PRIMARY', 'FOREIGN', 'CONSTRAINT', 'COLUMN', 'DEFAULT',
             'COLLATE', 'REFERENCES', 'ENFORCED', 'TYPE', '<'}


def first(toks):
    return toks[0].upper() if toks else ''


def fam(words):
    ws = set(words)
    if 'x' in ws:
        return lambda t: first(t) not in set(DML + DDL + QUERY)
    return lambda t: first(t) in ws


def has(words):
    ws = set(words)
    return lambda t: any(x.strip('\t').upper() in ws for x in t)


def seq(*ws):
    n = len(ws)
    return lambda t: any(tuple(x.strip('\t').upper() for x in t[i:i + n]) == ws for i in range(len(t) - n + 1))


def parenfrom(t):
    u = [x.strip('\t').upper() for x in t]
    return any(u[i] in ('FROM', 'JOIN', ',', 'USING', 'UPDATE', 'MERGE', 'INTO') and u[i + 1] == '(' for i in range(len(u) - 1))


class Inputs:
    """the scripts available to a run: corpus, committed derivations, fresh derivations"""

    def __init__(self, tier, seed, fresh):
        self.tier, self.r = tier, random.Random(seed * 1000003 + 17)
        self.up = [I.split(t) for t in I.upstream()]
        self.upraw = I.upstream()
        self.cur = [I.split(t) for t in I.curated()]
        self.curraw = I.curated()
        self.der = I.derived()
        self.small = self.up + self.cur + I.core()
        self.fresh = fresh
        self.tpl = [I.split(s) for k in templates.KINDS for s in templates.scripts(k, 50 if tier == 'quick' else 400, self.r, 3)]
        self.cross = I.Cross(self.scripts())
        self.vocab = sorted({x.strip('\t') for t in self.up + self.der for x in t})

    def scripts(self, want=None):
        out = [t for t in self.up + self.cur + self.der + self.tpl + self.fresh if t and (want is None or want(t))]
        return out

    def core(self, want=None):
        return [t for t in self.small if t and (want is None or want(t))]

    def raw(self):
        return self.upraw + self.curraw

    def templates(self, n, *kinds):
        """scripts put together from templates, none of them chosen twice"""
        for k in kinds:
            yield from templates.scripts(k, self.n(n), self.r)

    def some(self, xs, n):
        xs = list(xs)
        if self.tier == 'thorough' or len(xs) <= n:
            return xs
        return self.r.sample(xs, n)

    def n(self, quick, thorough=None):
        return quick if self.tier == 'quick' else (thorough if thorough is not None else quick * 12)


NEST = ['BEGIN %s END;', 'IF a THEN %s END IF;', 'LOOP %s END LOOP;', 'BEGIN SELECT 1; EXCEPTION WHEN ERROR THEN %s END', 'IF a THEN SELECT 1; ELSE BEGIN %s END; END IF;', 'CREATE PROCEDURE p() BEGIN %s END;', 'CASE WHEN a THEN %s END CASE;',
        'WHILE a DO %s END WHILE;', 'FOR r IN (SELECT 1) DO %s END FOR;', 'REPEAT %s UNTIL a END REPEAT;']
DEEP = ['SELECT * FROM (SELECT * FROM (%s))', 'SELECT (SELECT (%s))', 'WITH a AS (%s) SELECT ((SELECT 1))', 'CREATE TABLE t AS SELECT * FROM (SELECT * FROM (%s))', 'SELECT f(a, (b, (%s)))', 'INSERT t SELECT * FROM (%s)', 'SELECT EXISTS((%s))', 'FROM ((%s)) |> WHERE a']


def again(t, r):
    """three times in one script, the last far to the right"""
    one = I.plain(I.with_semicolon(t))
    return one + '\n' + one + ' ' * 64 + I.plain(t)


def within(t, r):
    u = [v.strip('\t').upper() for v in t]
    if u[0] in ('SELECT', 'WITH', 'FROM', '(') and ';' not in u and r.random() < .6:
        return r.choice(DEEP) % I.plain(t)
    return r.choice(NEST) % I.plain(I.with_semicolon(t))


def everyline(t, r):
    s = ''
    for v in I.loosen(t):
        s += v[1:] if v.startswith('\t') else ('\n' if s else '') + v
    return s


def commented(t, r):
    return I.comments(I.loosen(t), r, 1)


def inplace(x, want, hows):
    """every place of the tree, each script once with everything else about it different"""
    for t in x.core(want):
        for how in hows:
            yield how(t, x.r)


def structural(x, want, n=20000):
    """scripts of a family: as they are, and with other names, literals, case and layout"""
    base = x.scripts(want)
    for t in x.raw():
        if want is None or want(I.split(t)):
            yield t
    for t in x.some(base, n):
        yield I.plain(t)
    yield from inplace(x, want, [lower, commented, everyline, again, within] if want else [lower, commented])
    for _ in range(x.n(1500)):
        t = I.substitute(x.r.choice(base), x.r)
        how = x.r.randrange(5)
        yield (I.plain(t) if how < 2 else I.case(t, x.r) if how == 2 else I.comments(t, x.r, .1) if how == 3 else I.tight(t, x.r))
    for _ in range(x.n(1500)):
        yield I.plain(I.stretch(x.r.choice(base), x.r))
    own = I.Cross(base)
    for _ in range(x.n(2000)):
        yield I.plain(own.one(x.r) if x.r.random() < .7 else x.cross.one(x.r))


def cut(x, want, n):
    """scripts that end early, or are damaged"""
    base = x.scripts(want)
    for _ in range(n):
        t = x.r.choice(base)
        if x.r.random() < .4 and len(t) > 1:
            yield I.plain(t[:x.r.randrange(1, len(t))])
        else:
            yield I.plain(I.mutate(t, x.r, x.vocab))


def everything(x, n):
    for t in x.raw():
        yield t
    for t in x.some(x.scripts(), n):
        yield I.plain(t)


def moved(x, n):
    """texts far down and far to the right"""
    base = x.scripts()
    odd = ["SELECT 'a", '/* c', 'SELECT (1', 'a b c', "SELECT '''a\nb''' -- c\n, x", '-- c\n/* d\n */ SELECT 1 # e\n;', 'CREATE x', '`a', 'SELECT @', '', ';', '{{ a', 'SELECT 1 )']
    for t in odd + [I.comments(t, x.r, .2) for t in x.r.sample(base, x.n(n))]:
        for by in [(70000, 0), (0, 70000), (300, 300)]:
            yield {'rel': 'moved', 'xs': [t], 'by': by}


def p_lossless(x):
    yield from inplace(x, None, [commented, again])
    yield from moved(x, 20)
    yield from everything(x, 12000)
    base = x.scripts()
    for t in x.some(base, x.n(3000)):
        yield I.comments(t, x.r)
    for _ in range(x.n(1500)):
        yield I.comments(I.substitute(x.r.choice(base), x.r), x.r)
    yield from cut(x, None, x.n(1500))
    for _ in range(x.n(2000)):
        yield I.plain(I.stretch(x.r.choice(base), x.r))
        yield I.plain(x.cross.one(x.r))
    yield from x.templates(120, *templates.KINDS)
    yield from I.sizes(x.tier)


def p_partition(x):
    yield from moved(x, 60)
    yield from everything(x, 500)
    base = x.scripts()
    for t in x.some(base, x.n(2000)):
        yield I.layout(I.substitute(t, x.r), x.r)
    for _ in range(x.n(1500)):
        yield I.comments(I.substitute(x.r.choice(base), x.r), x.r)
    yield from I.sizes(x.tier)
    yield from x.some(I.lexical(x.tier), 22000)


def p_lex(x):
    yield from moved(x, 20)
    yield from everything(x, 300)
    base = x.scripts()
    for t in x.some(base, x.n(1200)):
        yield I.tight(I.substitute(t, x.r), x.r)
    for _ in range(x.n(800)):
        yield I.comments(I.substitute(x.r.choice(base), x.r), x.r)
    yield from I.lexical(x.tier)
    yield from embedded(x)


def embedded(x):
    """lexical oddities inside a script, so that what follows them shows where they ended"""
    for s in I.STRINGS:
        for pre in ('', 'r', 'b', 'RB', 'Br'):
            yield "SELECT %s%s, 'z' -- c\n, \"y\"" % (pre, s)
    for c in I.COMMENTS:
        yield 'SELECT %s\n1 %s\n, 2 ;' % (c, c)
    for a in I.NUMBERS:
        for b in ('', '+1', '-1', '.x', ' x', 'x', '..5', 'e', '/*c*/', ','):
            yield 'SELECT %s%s FROM t' % (a, b)
    for t in I.TEMPLATES + I.PARAMS:
        for u in ('', ',', 'x', "'s'", '}', '{', '`a`', '.b'):
            yield 'SELECT %s%s, 1' % (t, u)
    for a in ('ARRAY', 'array', 'Struct', 'RANGE', 'range', 'x', 'TABLE', 'MAP'):
        for b in ('<', ' <', '\n<', '/*c*/<', '--c\n<', '#<\n<'):
            for c in ('INT64>', 'ARRAY<INT64>>', 'a ARRAY<STRUCT<b INT64>>>', 'INT64>>=1', 'INT64 >', '>>1', 'x>>y', 'INT64>=[1]', 'a RANGE<DATE>>'):
                yield 'SELECT CAST(a AS %s%s%s), b >> 1' % (a, b, c)


def p_total(x):
    base = x.scripts()
    yield from x.some(I.lexical(x.tier), 9000)
    yield from cut(x, None, x.n(5000))
    for t in x.some(x.raw(), x.n(60)):
        for i in range(0, len(t), x.r.choice([3, 5, 7]) if x.tier == 'quick' else 1):
            yield t[:i]
    for _ in range(x.n(1200)):
        s = I.plain(x.r.choice(base))
        i = x.r.randrange(len(s) + 1)
        yield s[:i] + x.r.choice(list('\'"`({<>[/*-#@.;,\\\u00e9\n0')) + s[i:]
    for _ in range(x.n(600)):
        yield ' '.join(x.r.choice(x.vocab) for _ in range(x.r.randrange(1, 9)))
    for w in x.vocab:
        yield w
        yield w + ' ;'
    for _ in range(x.n(3000)):
        yield ' '.join(x.r.choice(x.vocab) for _ in range(2))
    yield from I.sizes(x.tier)
    for s in I.huge(x.tier):
        yield {'rel': 'call', 'xs': [s]}


def p_accept(x):
    yield from inplace(x, None, [lower, commented, again, within])
    yield from moved(x, 20)
    yield from everything(x, 20000)
    yield from cut(x, None, x.n(5000))
    base = x.scripts()
    for t in x.some(base, x.n(250)):
        for i in range(1, len(t)):
            yield I.plain(t[:i])
    for t in x.some(base, x.n(800)):
        yield I.comments(t[:x.r.randrange(1, len(t) + 1)], x.r, .3)
    for t in x.some(base, x.n(800)):
        yield I.plain(I.substitute(t, x.r))
    for _ in range(x.n(2000)):
        yield I.plain(I.stretch(x.r.choice(base), x.r))
        yield I.plain(x.cross.one(x.r))
    yield from x.templates(120, *templates.KINDS)
    yield from I.sizes(x.tier)


def p_comments(x):
    base = x.scripts()
    yield from inplace(x, None, [commented])
    for t in x.raw():
        yield t
    for t in x.some(base, x.n(5000)):
        yield I.comments(t, x.r)
    for t in x.some(base, x.n(1500)):
        yield I.comments(I.substitute(t, x.r), x.r, 1)
    # one comment in every gap, in every position relative to the line ends
    for t in ([t for t in x.up if len(t) < 9] + [['SELECT', 'a', ',', "'''s\ns'''", ';'], [';'], []]):
        for i in range(len(t) + 1):
            for c in ('/*c*/', '--c\n', '/*c\nc*/', '/*c*/ /*d*/', '/*c*/\n/*d*/', '--c\n--d\n', '\n/*c*/', '\n--c\n', '\n/*c*/\n', '/*c*/\n--d\n#e\n', '--c'):
                yield I.plain(t[:i]) + ' ' + c + ' ' + I.plain([u.strip('\t') for u in t[i:]])


def pairs(rel, variant, n, *full):
    def f(x):
        base = x.scripts()
        for t in x.core():
            for v in full:
                yield {'rel': rel, 'xs': [I.plain(t), v(t, x.r)]}
        for t in x.some(base, x.n(n)):
            yield {'rel': rel, 'xs': [I.plain(t), variant(t, x.r)]}
        for _ in range(x.n(1200)):
            t = I.substitute(x.r.choice(base), x.r)
            yield {'rel': rel, 'xs': [I.plain(t), variant(t, x.r)]}
        for _ in range(x.n(700)):
            t = I.mutate(x.r.choice(base), x.r, x.vocab)
            yield {'rel': rel, 'xs': [I.plain(t), variant(t, x.r)]}
    return f


def lower(t, r):
    how = r.randrange(3)
    return I.plain([(u.lower() if how == 0 else u.swapcase() if how == 1 else I.recase(u, r)) if I.WORD.match(u.strip('\t')) else u for u in t])


def downcase(t, r):
    return I.plain([u.lower() if I.WORD.match(u.strip('\t')) else u for u in t])


def mixcase(t, r):
    return I.plain([I.recase(u, r) for u in t])


def somecomments(t, r):
    return I.comments(t, r, 1 if r.random() < .25 else None)


def anylayout(t, r):
    return I.layout(t, r) if r.random() < .7 else I.tight(t, r)


def p_compose(x):
    base = x.scripts()
    for b in x.core():
        yield I.concat(I.plain(I.with_semicolon(x.r.choice(base))), I.plain(b), x.r)
        yield I.block(I.plain(I.with_semicolon(b)), x.r)
        yield within(b, x.r)
    for _ in range(x.n(2500)):
        a, b = I.with_semicolon(x.r.choice(base)), x.r.choice(base)
        yield I.concat(I.plain(a), I.plain(b if x.r.random() < .8 else I.mutate(b, x.r, x.vocab)), x.r)
    for t in x.some(base, x.n(2000)):
        yield I.block(I.plain(I.with_semicolon(t)), x.r)
    for _ in range(x.n(800)):
        k = x.r.randrange(2, 6)
        yield ' '.join(I.plain(I.with_semicolon(x.r.choice(base))) for _ in range(k))
    # what one statement leaves open must not reach into the next: types closed in every way, then every use of < and >
    opened = ['SELECT CAST(a AS ARRAY<STRUCT<b INT64>>);', 'DECLARE a ARRAY<ARRAY<INT64>>;', 'CREATE TABLE t (a STRUCT<b ARRAY<STRUCT<c INT64>>>, d INT64);', 'SELECT ARRAY<INT64>[1];', 'SELECT STRUCT<RANGE<DATE>>(1);',
              'SELECT ARRAY<STRUCT<a INT64, b ARRAY<STRING>>>[];', 'SELECT CAST(a AS STRUCT<ARRAY<RANGE<DATE> > >);', 'CREATE FUNCTION f(a ARRAY<INT64>) RETURNS STRUCT<b ARRAY<INT64>> AS (1);', 'SELECT t.array < 5;', 'SELECT `struct` < 5;',
              "SELECT 'ARRAY' < 5;", '/* ARRAY */ SELECT 1 < 2;', 'SELECT range_ < 1;', 'SELECT a < b, c > d;', 'ALTER TABLE t ADD COLUMN a ARRAY<STRUCT<b RANGE<DATE>>>;', 'CREATE TABLE FUNCTION f(a ARRAY<ARRAY<INT64>>) RETURNS TABLE<b ARRAY<INT64>> AS SELECT 1;']
    angles = ['SELECT 8 >> 1;', 'SELECT 1 >= 2;', 'SELECT 1 > 2', 'SELECT a<b, c>>d, e>=f', 'SELECT 1 <> 2;', 'SELECT CAST(a AS ARRAY<STRUCT<b INT64>>) >> 1', 'FROM t |> WHERE a >= 1', 'SELECT f(a => 1 >> 2)', 'SELECT ARRAY<INT64>[1 >> 2] >= b', 'SELECT a>>b>>c;']
    for a in opened:
        for b in angles:
            yield I.concat(a, b, x.r)
    for a in opened[::3]:
        for b in opened[::2]:
            for c in angles[::2]:
                yield a + x.r.choice([' ', '\n', '']) + b + x.r.choice([' ', '\n', '']) + c
    for _ in range(x.n(1500)):
        yield I.tight(I.substitute(I.with_semicolon(x.r.choice(base)), x.r), x.r) + x.r.choice(['', ' ', '\n']) + I.tight(I.substitute(x.r.choice(base), x.r), x.r)
    wrap = ['IF a THEN %s END IF;', 'LOOP %s END LOOP;', 'WHILE a DO %s END WHILE;', 'REPEAT %s UNTIL a END REPEAT;', 'BEGIN %s EXCEPTION WHEN ERROR THEN %s END;',
            'FOR r IN (SELECT 1) DO %s END FOR;', 'CASE WHEN a THEN %s ELSE %s END CASE;', 'l: BEGIN %s END l;', 'IF a THEN %s ELSEIF b THEN %s ELSE %s END IF;',
            'CREATE PROCEDURE p() BEGIN %s END;']
    for _ in range(x.n(1200)):
        w = x.r.choice(wrap)
        yield w.replace('%s', '{}').format(*[I.plain(I.with_semicolon(x.r.choice(base))) for _ in range(w.count('%s'))])


def p_expr(x):
    yield from x.templates(900, 'expr')
    yield from I.expressions(x.tier, x.r)
    yield from structural(x, lambda t: len(t) > 3 and has(['*', '+', '-', '/', 'AND', 'OR', 'NOT', 'IS', 'IN', 'LIKE', 'BETWEEN', '||', '[', 'CASE', 'CAST', 'OVER',
                                                          'INTERVAL', '.', '|', '&', '^', '<<', '=', '<', '~', 'EXTRACT'])(t), x.n(6000))


def p_query(x):
    yield from x.templates(900, 'query', 'from')
    yield from structural(x, lambda t: has(['SELECT', 'FROM', 'WITH'])(t))


def fam_plan(want, kinds, n=20000):
    def f(x):
        yield from x.templates(500, *kinds)
        yield from structural(x, want, n)
        yield from cut(x, want, x.n(800))
    return f


def p_types(x):
    yield from x.templates(350, 'ctable', 'alter', 'cfunc')
    yield from structural(x, has(TYPEWORDS), 5000)
    ts = ['INT64', 'STRING(10)', 'NUMERIC(10, 2)', 'ARRAY<INT64>', 'STRUCT<INT64>', 'STRUCT<a INT64>', 'STRUCT<a INT64, b STRING>', 'STRUCT<INT64, STRING>',
          'RANGE<DATE>', 'ARRAY<STRUCT<a ARRAY<INT64>, b STRUCT<c STRING(5)>>>', 'STRUCT<a STRUCT<b STRUCT<c INT64>>>', 'ANY TYPE', 'ARRAY', 'TABLE<a INT64>',
          'ARRAY<ARRAY<RANGE<DATE>>>', 'STRUCT<date DATE, time TIME>', 'STRUCT<`a` INT64>', 'STRUCT<>', 'ARRAY<STRING(3)>', 'struct<Array<int64>>']
    sfx = ['', ' NOT NULL', " OPTIONS(description='x')", ' DEFAULT 1', " COLLATE 'und:ci'", ' DEFAULT 1 NOT NULL OPTIONS()', ' PRIMARY KEY NOT ENFORCED',
           ' REFERENCES t(a) NOT ENFORCED', ' CONSTRAINT c REFERENCES t(a)', ' DEFAULT CURRENT_DATE() NOT NULL', " COLLATE '' NOT NULL OPTIONS(a=1)",
           ' PRIMARY KEY', ' DEFAULT a + 1 OPTIONS()', ' DEFAULT NULL', ' REFERENCES t(a) NOT NULL', ' ENFORCED']
    ctx = ['CREATE TABLE t (a %s%s);', 'CREATE TABLE t (a %s%s, b INT64);', 'ALTER TABLE t ADD COLUMN a %s%s;', 'CREATE TABLE t (x STRUCT<a %s%s, b INT64>)',
           'CREATE PROCEDURE p(a %s%s, OUT b INT64) BEGIN END', 'CREATE TABLE t (a ARRAY<%s%s>)']
    plainctx = ['SELECT CAST(a AS %s)', 'DECLARE a %s;', 'DECLARE a, b %s DEFAULT 1', 'SELECT SAFE_CAST(a + 1 AS %s FORMAT \'x\')', 'CREATE FUNCTION f(a %s) AS (1)',
                'CREATE FUNCTION f(a %s, b ANY TYPE) RETURNS INT64 AS (1)', 'CREATE FUNCTION f() RETURNS %s AS (a)', 'CREATE TEMP FUNCTION f(a INT64 NOT AGGREGATE, b %s) AS (1)',
                'CREATE TABLE FUNCTION f(a %s) RETURNS TABLE<b %s> AS SELECT 1', 'ALTER TABLE t ALTER COLUMN a SET DATA TYPE %s', 'CREATE MODEL m INPUT(a %s) OUTPUT(b %s) REMOTE WITH CONNECTION c',
                'LOAD DATA INTO t (a %s, b %s) FROM FILES (a=1)', 'CREATE PROCEDURE p(INOUT a %s, IN b %s) BEGIN END', 'SELECT %s[1, 2]', 'SELECT %s(1, a AS b)']
    for a in ts:
        for c in plainctx:
            yield c.replace('%s', a)
        for s in sfx:
            for c in ctx:
                yield c % (a, s)
    cols = ['CREATE TABLE t (%s INT64, b INT64)', 'CREATE TABLE t (a INT64, %s STRING(3) NOT NULL)', 'CREATE TABLE t (a STRUCT<%s INT64, b STRING>)', 'CREATE TABLE t (%s STRUCT<a INT64>)', 'CREATE FUNCTION f(%s INT64) AS (1)',
            'CREATE PROCEDURE p(%s INT64, OUT %s STRING) BEGIN END', 'ALTER TABLE t ADD COLUMN %s ARRAY<INT64>', 'SELECT CAST(a AS STRUCT<%s INT64>)', 'SELECT STRUCT<%s INT64, %s DATE>(1, 2)', 'CREATE TABLE t (a %s)', 'CREATE TABLE t (%s DATE DEFAULT 1, PRIMARY KEY (a))',
            'CREATE TABLE t (a INT64, CONSTRAINT %s PRIMARY KEY (b))', 'CREATE TABLE t (a INT64, CONSTRAINT %s FOREIGN KEY (b) REFERENCES u(c))', 'CREATE TABLE FUNCTION f(%s INT64) RETURNS TABLE<%s INT64> AS SELECT 1', 'CREATE TABLE t (a INT64 REFERENCES %s(b))']
    for c in cols:
        for n in I.NAMES + ['constraint', 'column', 'primary', 'foreign', 'key', 'collate', 'aggregate', 'not_', 'null_']:
            yield c.replace('%s', n)
    cons = ['PRIMARY KEY (a)', 'PRIMARY KEY (a, b) NOT ENFORCED', 'FOREIGN KEY (a) REFERENCES t(b)', 'CONSTRAINT c PRIMARY KEY (a) ENFORCED', 'CONSTRAINT IF NOT EXISTS c FOREIGN KEY (a) REFERENCES d.t(b) NOT ENFORCED',
            'FOREIGN KEY (a, b) REFERENCES `t`(b, c) NOT ENFORCED']
    for a in cons:
        for c in ('CREATE TABLE t (a INT64, %s)', 'CREATE TABLE t (%s)', 'CREATE TABLE t (%s, a INT64, %s);', 'ALTER TABLE t ADD %s', 'ALTER TABLE t ADD %s, ADD %s;'):
            yield c.replace('%s', a)


def p_declared(x):
    yield from x.templates(150, *templates.KINDS)
    yield from structural(x, None)
    yield from I.expressions('quick', x.r) if x.tier == 'thorough' else x.some(I.expressions('quick', x.r), 600)


def p_shape(x):
    yield from moved(x, 20)
    yield from everything(x, 5000)
    base = x.scripts()
    for t in x.some(base, x.n(1500)):
        yield I.comments(I.substitute(t, x.r), x.r)
    yield from cut(x, None, x.n(2500))
    yield from x.some(I.lexical('quick'), x.n(4000, 49000))
    yield from I.sizes(x.tier)


WORDS = ['ALL', 'AND', 'ANY', 'ARRAY', 'AS', 'ASC', 'ASSERT_ROWS_MODIFIED', 'AT', 'BETWEEN', 'BY', 'CASE', 'CAST', 'COLLATE', 'CONTAINS', 'CREATE', 'CROSS', 'CUBE', 'CURRENT',
         'DEFAULT', 'DEFINE', 'DESC', 'DISTINCT', 'ELSE', 'END', 'ENUM', 'ESCAPE', 'EXCEPT', 'EXCLUDE', 'EXISTS', 'EXTRACT', 'FALSE', 'FETCH', 'FOLLOWING', 'FOR', 'FROM', 'FULL', 'GROUP',
         'GROUPING', 'GROUPS', 'HASH', 'HAVING', 'IF', 'IGNORE', 'IN', 'INNER', 'INTERSECT', 'INTERVAL', 'INTO', 'IS', 'JOIN', 'LATERAL', 'LEFT', 'LIKE', 'LIMIT', 'LOOKUP', 'MERGE', 'NATURAL',
         'NEW', 'NO', 'NOT', 'NULL', 'NULLS', 'OF', 'ON', 'OR', 'ORDER', 'OUTER', 'OVER', 'PARTITION', 'PRECEDING', 'PROTO', 'QUALIFY', 'RANGE', 'RECURSIVE', 'RESPECT', 'RIGHT', 'ROLLUP', 'ROWS',
         'SELECT', 'SET', 'SOME', 'STRUCT', 'TABLESAMPLE', 'THEN', 'TO', 'TREAT', 'TRUE', 'UNBOUNDED', 'UNION', 'UNNEST', 'USING', 'WHEN', 'WHERE', 'WINDOW', 'WITH', 'WITHIN']


def p_names(x):
    ctx = ['SELECT %s', 'SELECT a %s', 'SELECT a AS %s', 'SELECT a.%s', 'SELECT a.%s.b', 'SELECT %s.a', 'SELECT %s(1)', 'SELECT a.%s(1)', 'SELECT * FROM %s', 'SELECT * FROM a.%s',
           'SELECT * FROM a %s', 'SELECT * FROM a AS %s', 'SELECT * FROM a.%s.c x', 'SELECT * FROM p-%s.d', 'SELECT * FROM p-q.%s', 'SELECT 1 %s FROM t', 'SELECT a[%s]', 'SELECT (a AS %s)',
           'SELECT STRUCT(1 AS %s)', 'WITH %s AS (SELECT 1) SELECT 2', 'CREATE TABLE %s (a INT64)', 'CREATE TABLE t (%s INT64)', 'CREATE TABLE t (a %s)', 'DECLARE %s INT64', 'DECLARE a %s',
           'SET %s = 1', 'SELECT x FROM t ORDER BY %s', 'SELECT a FROM t WINDOW %s AS (ORDER BY a)', 'SELECT f() OVER %s', '%s: LOOP END LOOP %s;', 'BREAK %s;', 'CALL %s()', 'CALL a.%s()',
           'INSERT %s VALUES (1)', 'DELETE %s WHERE a', 'DELETE t %s WHERE a', 'UPDATE %s SET a = 1', 'MERGE %s USING b ON c', 'DROP TABLE %s', 'ALTER TABLE a.%s SET OPTIONS(x=1)',
           'SELECT CAST(a AS %s)', 'SELECT f(%s => 1)', 'SELECT STRUCT<%s INT64>(1)', 'FROM t |> AS %s', 'FROM %s |> WHERE a', 'FROM t |> SELECT a %s', 'SELECT a.b.%s[0]', 'SELECT x.* EXCEPT (%s)',
           'SELECT "s" %s', 'SELECT 1 + %s', 'GRANT %s ON TABLE t TO "u"', 'SELECT (%s).a', 'SELECT f(x).%s', 'SELECT @p.%s', 'FOR %s IN (SELECT 1) DO END FOR', 'EXECUTE IMMEDIATE a INTO %s',
           'SELECT * FROM t PIVOT(SUM(a) FOR %s IN (1))', 'SELECT * FROM UNNEST(a) %s WITH OFFSET %s', 'SELECT * FROM t FOR SYSTEM_TIME AS OF %s', 'CREATE FUNCTION %s(%s INT64) AS (1)']
    names = I.NAMES + ['1', '1.5', "'s'", '@p', '@@a', '{{v}}', '?', 'x-y', 'x-1', 'x-1y', 'x-y-z', 'a-b.c-d', '`a`.b', 'a.`b`', 'a1-2', '_', '__a', 'true_', 'nul'] + WORDS + ['`%s`' % w.lower() for w in WORDS[::7]]
    allp = [c.replace('%s', v) for c in ctx for v in names]
    yield from allp
    yield from [c.replace('%s', w.lower()) for w in WORDS for c in x.some(ctx, 12)]
    base = x.scripts()
    for _ in range(x.n(1500)):
        yield I.plain(I.substitute(x.r.choice(base), x.r, 1))


def p_paren(x):
    yield from x.templates(700, 'from')
    yield from structural(x, parenfrom)
    atoms = ['t', '(SELECT 1)', '(SELECT 1) AS a', 'UNNEST([1])', '(WITH a AS (SELECT 1) SELECT 2)', '(SELECT 1 UNION ALL SELECT 2)', '(FROM t |> WHERE x)', 'a.b c', 'f(1)',
             '(SELECT * FROM (t))', '((SELECT 1))', '(SELECT 1 LIMIT 1)']
    joins = [' JOIN ', ', ', ' LEFT JOIN ', ' CROSS JOIN ', ' FULL OUTER JOIN ', ' INNER JOIN ']
    conds = ['', ' ON a = b', ' USING (x)']
    tails = ['', ' AS z', ' z', ' UNION ALL SELECT 1', ' ORDER BY 1', ' LIMIT 1', ' TABLESAMPLE SYSTEM (1 PERCENT)', ' PIVOT(SUM(a) FOR b IN (1))', ' |> WHERE x', ' WHERE x', ' INTERSECT DISTINCT (SELECT 2)']

    def item(d):
        k = x.r.random()
        if d == 0 or k < .3:
            return x.r.choice(atoms)
        if k < .6:
            return '(' + item(d - 1) + x.r.choice(joins) + item(d - 1) + x.r.choice(conds) + ')'
        if k < .75:
            return '(' + item(d - 1) + ')'
        if k < .9:
            return '(SELECT * FROM ' + item(d - 1) + x.r.choice(tails) + ')'
        return item(d - 1) + x.r.choice(joins) + item(d - 1) + x.r.choice(conds)
    for a in atoms:
        for b in atoms:
            for j in joins[:3]:
                yield 'SELECT * FROM (%s%s%s)' % (a, j, b)
                yield 'SELECT * FROM ((%s)%s%s)' % (a, j, b)
        for t in tails:
            yield 'SELECT * FROM (%s%s)' % (a, t)
            yield 'SELECT * FROM (%s)%s' % (a, t)
            yield 'SELECT * FROM ((%s)%s)' % (a, t)
            yield 'SELECT * FROM ((%s)%s) JOIN u' % (a, t)
            yield 'SELECT * FROM ((%s%s) JOIN u)' % (a, t)
    # many parentheses around anything, with something behind one of the closing ones
    inner = ['SELECT 1', 't', 't JOIN u', 'a.b AS c', 'WITH a AS (SELECT 1) SELECT 2', 'FROM t |> WHERE a', 'SELECT 1 UNION ALL SELECT 2', 't, u', 'UNNEST([1])', '(SELECT 1) UNION ALL (SELECT 2)', '(SELECT 1) JOIN t']
    for n in range(1, 13):
        for m in inner:
            yield 'SELECT * FROM ' + '(' * n + m + ')' * n
            yield 'SELECT * FROM u JOIN ' + '(' * n + m + ')' * n + ' ON a'
            k = x.r.randrange(n + 1)
            yield 'SELECT * FROM ' + '(' * n + m + ')' * k + x.r.choice(tails) + ')' * (n - k)
            yield 'SELECT * FROM ' + '( ' * n + m + x.r.choice(joins) + x.r.choice(atoms) + ')' * n + x.r.choice(tails)
            yield 'SELECT * FROM ' + '(' * n + '/* c */ ' + m + ')' * n + x.r.choice(tails)
    for _ in range(x.n(2500)):
        yield x.r.choice(['SELECT * FROM %s', 'SELECT * FROM %s WHERE a', 'FROM %s |> WHERE x', 'SELECT (SELECT * FROM %s)', 'UPDATE t SET a = 1 FROM %s', 'SELECT * FROM a JOIN %s ON b']) % item(x.r.choice([1, 2, 3, 4]))


def p_pipe(x):
    yield from x.templates(700, 'pipe', 'query')
    yield from structural(x, has(['|>']))
    ops = ['WHERE a > 1', 'SELECT a, b AS c', 'SELECT DISTINCT a', 'SELECT AS STRUCT a', 'SELECT ALL AS VALUE a', 'SELECT a, f() OVER w WINDOW w AS (ORDER BY a)', 'EXTEND a + 1 AS b', 'EXTEND a b, c', 'SET a = 1, b = 2', 'DROP a, b', 'RENAME a AS b, c d',
           'AS t', 'AGGREGATE COUNT(*) AS n GROUP BY a', 'AGGREGATE SUM(a) DESC, b GROUP BY c AS d ASC, e', 'AGGREGATE GROUP BY a', 'AGGREGATE COUNT(*)', 'AGGREGATE a GROUP AND ORDER BY b', 'ORDER BY a DESC, b NULLS LAST', 'LIMIT 1', 'LIMIT 1 OFFSET 2',
           'JOIN t ON a = b', 'LEFT OUTER JOIN t USING (a)', 'CROSS JOIN t AS u', 'INNER JOIN (SELECT 1) ON x', 'FULL JOIN UNNEST(a) AS b WITH OFFSET', 'UNION ALL (SELECT 1)', 'UNION DISTINCT (SELECT 1), (SELECT 2)', 'INTERSECT DISTINCT BY NAME (SELECT 1)', 'EXCEPT ALL CORRESPONDING BY (a) (SELECT 1)',
           'LEFT OUTER UNION ALL BY NAME ON (a, b) (SELECT 1)', 'FULL UNION ALL STRICT CORRESPONDING (SELECT 2)', 'INNER INTERSECT ALL (SELECT 1)', 'CALL f(1)', 'CALL a.f(1, b => 2) AS t', 'TABLESAMPLE SYSTEM (1 PERCENT)', 'PIVOT(SUM(a) FOR b IN (1, 2 AS c)) AS t', 'PIVOT(SUM(a) FOR b IN ("x"))',
           "UNPIVOT(a FOR b IN (c, d AS 'x'))", 'UNPIVOT INCLUDE NULLS ((a, b) FOR c IN ((d, e) AS 1)) t', 'WITH a AS (SELECT 1), b AS (SELECT 2)', 'DISTINCT', 'MATCH_RECOGNIZE (PARTITION BY a ORDER BY b MEASURES c AS d PATTERN (a+ b*) DEFINE a AS b)',
           'WINDOW SUM(a) OVER (ORDER BY b)', 'WHERE EXISTS (FROM t |> WHERE a)']
    heads = ['FROM t', 'SELECT 1', '(SELECT 1)', 'WITH a AS (SELECT 1) SELECT 2', 'FROM t JOIN u ON a', 'WITH a AS (SELECT 1) FROM a', 'SELECT a FROM t WHERE b', 'SELECT 1 UNION ALL SELECT 2', 'FROM (SELECT 1)', 'FROM `t`', 'FROM UNNEST([1]) AS a']
    for h in heads:
        for o in ops:
            yield '%s |> %s' % (h, o)
    for a in ops:
        for b in x.some(ops, 16):
            yield 'FROM t |> %s |> %s;' % (a, b)
    ctx = ['%s', '%s;', 'SELECT (%s)', 'CREATE TABLE t AS %s', 'WITH a AS (%s) SELECT 1', 'SELECT * FROM (%s)', 'INSERT t %s', 'BEGIN %s; END', 'EXPORT DATA OPTIONS(a=1) AS %s', 'FOR a IN (%s) DO END FOR', 'SELECT ARRAY(%s)', 'CREATE VIEW v AS %s', 'FROM u |> JOIN (%s) ON x', 'SELECT a IN (%s)']
    for _ in range(x.n(1500)):
        s = x.r.choice(heads) + ''.join(' |> ' + x.r.choice(ops) for _ in range(x.r.randrange(1, 6)))
        yield x.r.choice(ctx) % s


TREE = {'tree', 'rejects', 'accepts'}

# id -> (inputs, categories that break the property, first words of fresh derivations, filter on the path or None)
PLANS = {
    'C01': (p_lossless, {'lost', 'span'}, []),
    'C02': (p_partition, {'partition'}, []),
    'C03': (p_lex, {'lex', 'lexpos'}, []),
    'C04': (p_total, {'crash', 'hang'}, []),
    'C05': (p_accept, {'rejects', 'accepts', 'errpos', 'errtoken'}, []),
    'C06': (p_comments, {'comments'}, []),
    'C07': (pairs('comment', somecomments, 5000, commented), {'comment'}, []),
    'C08': (pairs('case', lower, 8000, downcase, mixcase), {'case'}, []),
    'C09': (pairs('layout', anylayout, 8000, everyline, I.tight), {'layout'}, []),
    'C10': (p_expr, TREE, ['SELECT', 'SET', 'ASSERT']),
    'C11': (p_compose, {'concat', 'block'} | TREE, []),
    'C12': (p_query, TREE, QUERY),
    'C13': (fam_plan(fam(DML), ['dml', 'merge']), TREE, DML),
    'C14': (fam_plan(fam(DDL), ['ddl', 'ctable', 'alter', 'cfunc']), TREE, DDL),
    'C15': (fam_plan(fam(OTHER), ['other', 'ctl']), TREE, OTHER),
    'C16': (p_types, TREE, ['CREATE', 'DECLARE', 'ALTER']),
    'C17': (p_declared, {'declared'}, []),
    'C19': (p_shape, {'shape', 'agree'}, []),
    'C20': (p_names, TREE | {'name'}, []),
    'C21': (p_paren, TREE, ['SELECT', 'FROM']),
    'C22': (p_pipe, TREE, ['FROM', 'SELECT']),
}
