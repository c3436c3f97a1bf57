"""Inputs: texts (and related texts) handed to the library and to the specification.

Everything here only decides WHAT is tried; what the library must answer is decided by the specification alone.
A script is a list of token texts; a leading TAB marks a token that touches the one before it.
"""
import itertools, json, os, random, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

WORD = re.compile(r'^[A-Za-z_][A-Za-z_0-9]*$')


def upstream():
    return [json.loads(l) for l in open(os.path.join(HERE, 'corpus', 'upstream.jsonl'))]


def core():
    """scripts derived by the specification: every node under every child of every node type, every pair of children"""
    return [json.loads(l) for l in open(os.path.join(HERE, 'corpus', 'core.jsonl'))]


def derived():
    """those and the ones that put each of these places between different neighbours"""
    return core() + [json.loads(l) for l in open(os.path.join(HERE, 'corpus', 'derived.jsonl'))]


def curated():
    p = os.path.join(HERE, 'corpus', 'curated.jsonl')
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []


def plain(toks):
    s = ''
    for t in toks:
        s += t[1:] if t.startswith('\t') else (' ' if s else '') + t
    return s


# ---------------------------------------------------------------- splitting a text into tokens (roughly)
TOK = re.compile(r"""
  (?P<cmt>\#[^\n]*|--[^\n]*|/\*.*?\*/)
 |(?P<str>'''(?:\\.|.)*?'''|\"\"\"(?:\\.|.)*?\"\"\"|'(?:\\.|[^'\\])*'|"(?:\\.|[^"\\])*")
 |(?P<bq>`[^`]*`)
 |(?P<tmpl>\{\{.*?\}\}|\{%.*?%\})
 |(?P<num>\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)
 |(?P<param>@+[A-Za-z_][A-Za-z_0-9]*|@+`[^`]*`)
 |(?P<word>[^\W\d]\w*)
 |(?P<sym>\|\||\|>|<<|<=|<>|>=|=>|!=|.)
""", re.X | re.S)


def split(text):
    """tokens of a text without comments, touching ones marked; >> is kept apart inside types by being two symbols"""
    out, end = [], 0
    for m in TOK.finditer(text):
        if m.group().isspace():
            continue
        if m.lastgroup == 'cmt':
            end = -1
            continue
        out.append(('\t' if out and m.start() == end else '') + m.group())
        end = m.end()
    return out


# ---------------------------------------------------------------- renderings
def recase(t, r):
    b = t[1:] if t.startswith('\t') else t
    if not (WORD.match(b) or (b.startswith('@') and '`' not in b)):
        return t
    how = r.random()
    if how < .35:
        n = b.lower()
    elif how < .5:
        n = b.upper()
    else:
        n = ''.join(c.lower() if r.random() < .5 else c.upper() for c in b)
    return ('\t' if t.startswith('\t') else '') + n


def case(toks, r):
    return plain([recase(t, r) for t in toks])


SPACES = [' ', '  ', '\n', '\t', '\r\n', ' \n ', '\n\n', '   ', ' \t', '\n    ', '\u3000', '\u00a0', '\f', ' \u2003']


def layout(toks, r):
    how = r.randrange(6)
    sep = {0: lambda: '\n', 1: lambda: r.choice(SPACES), 2: lambda: '\r\n', 3: lambda: r.choice([' ', '\n']),
           4: lambda: r.choice(SPACES[:10]), 5: lambda: '\t'}[how]
    s = r.choice(['', '', '\n', '  ', '\r\n\t'])
    for i, t in enumerate(toks):
        if t.startswith('\t'):
            s += t[1:]
        else:
            s += (sep() if i else '') + t
    return s + r.choice(['', '\n', ' ', '\r\n', ' \n\n'])


SYM = re.compile(r'^(\|\||\|>|[-+*/(),.;:\[\]=~^&]|=>|<=|>=|<>|!=|<<)$')


def tight(toks, r):
    """no space where the tokens cannot run together"""
    s = ''
    for t in toks:
        if t.startswith('\t'):
            s += t[1:]
            continue
        p = s[-1:] if s else ''
        need = p and not (
            (t in ('(', ')', ',', ';', '[', ']') or p in '(),;[]') or
            (SYM.match(t) and t not in ('.', '-', '/', '|>') and (p.isalnum() or p in '_`\'"')) or
            (p in '=+*~' and WORD.match(t)) or
            (t == '>' and (p.isalnum() or p in '_>)')) or t == '<' or (p in '<>' and WORD.match(t)))
        if p == '*' and t == '/' or p == '/' and t == '*':
            need = True
        s += (' ' if need or (p and r.random() < .15) else '') + t
    return s


COMMENTS = ['-- c', '#c', '/* c */', '/**/', '/* a\n b */', "-- it's", '/* ( */', '#', '--', '/*\n*/', '-- ; SELECT', '/* ` */',
            '-- \u00e9\u4e2d', '/***/', '/* -- */', '# \U0001f600', '--c /*', '/* */ /* */', '/*;*/', '-- trailing   ',
            '/* a\r\n b */', '-- c\r', '/*\r\n\t*/', '/*\n\n\n*/']


def loosen(toks):
    """the tokens with a gap wherever one may be: what must stay together are the parts of a dashed name and of a shift"""
    dash = any(t == '\t-' for t in toks)
    out = []
    for i, t in enumerate(toks):
        p = toks[i - 1].strip('\t') if i else ''
        v = t[1:]
        if t[:1] == '\t' and not v == p == '>' and p != '{' and (v in FREE or p in FREE or (not dash and '.' in (v, p))):
            t = v
        out.append(t)
    return out


FREE = ('(', ')', '[', ']', ',', ';', '<', '>', '=')


def comments(toks, r, p=None, pool=COMMENTS):
    toks = loosen(toks) if r.random() < .5 else toks
    p = r.choice([.05, .15, .4, 1]) if p is None else p
    s = ''
    if r.random() < p:
        s = gap(r, pool)
    for i, t in enumerate(toks):
        if t.startswith('\t'):
            s += t[1:]
        else:
            if s and not s.endswith('\n'):
                s += ' '
            s += t
        nxt = toks[i + 1] if i + 1 < len(toks) else ''
        if not nxt.startswith('\t') and r.random() < p:
            s += gap(r, pool)
    return s


def gap(r, pool):
    s = ''
    for _ in range(r.choice([1] * 12 + [2, 2, 2, 3, 5])):
        c = r.choice(pool)
        s += r.choice([' ', '\n', '  ', '\n\n', ' '])
        s += c
        if c[0] in '#-' :
            s += '\n'
    return s + r.choice(['', ' ', '\n'])


NAMES = ['x', 'foo', '_a1', 'X9', 'tbl', 'date', 'offset', 'value', 'type', 'row', 'key', 'data', 'first', 'last', 'replace', 'temp',
         'view', 'table', 'model', 'b', 'r', 'rb', 'br', 'time', 'json', 'numeric', 'safe', 'keys', 'pivot', 'unpivot', 'options',
         'columns', 'policy', 'access', 'filter', 'grant', 'percent', 'system', 'system_time', 'name', 'strict', 'corresponding',
         'qualify_', 'window_', 'begin', 'end_', 'loop', 'leave', 'label', 'asc_', 'nulls_', '`a b`', '`select`', '`p-q.d.t`', '`a``', '`x*`',
         'caf\u00e9', '\u4e2d\u6587', 'INT64', 'string', 'a_very_long_identifier_name_that_goes_on_and_on_and_on_and_on_0123456789',
         'out', 'inout', 'primary', 'foreign', 'enforced', 'references', 'generated', 'storing', 'match_recognize', 'measures', 'pattern',
         'define_', 'percent_', 'matched', 'target', 'source', 'transaction', 'language', 'returns', 'deterministic', 'remote', 'connection',
         'clone', 'copy', 'cascade', 'restrict', 'overwrite', 'partitions', 'files', 'immediate', 'error', 'exception', 'message',
         'unknown', 'any_value', 'extend', 'aggregate', 'drop', 'rename', 'union_', 'ordinal', 'safe_offset', 'safe_cast', 'cast_', 'extract_',
         'minute', 'day', 'year', 'x1e5', 'e1', 'a1b2']
NUMBERS = ['1', '0', '123', '1.5', '.5', '1.', '1e10', '1E-3', '1.5e+3', '0xFF', '0x1a', '007', '99999999999999999999', '1.e2', '.0e0']
STRINGS = ["'s'", '""', "''", '"a b"', "'it\\'s'", '"\\""', "'\\\\'", "'''m'''", "'''a'b''c\n'''", '"""q"""', '"""a"b\n""c"""', "'--'", "'/*'",
           "'#'", "'\u00e9\U0001f600'", "'`'", '";"', "'a\\nb'", "'''\\''' '''", '"\'"', "'{{x}}'", "''''''", "'''a\r\nb\r\n'''", '"""\r\n\t"""', "'''\n\n\n'''", "'a\tb'", "' \u00a0\u3000'", "'" + 'z' * 90 + "'"]
PARAMS = ['@p', '@@sys', '@`a b`', '?', '@_1', '@@a.b']
TEMPLATES = ['{{v}}', '{v}', '{{ a.b }}', '{% if x %}', '{{\nv\n}}', "{{ 'a' }}", '{{{v}}}', '{{\r\nv }}', '{%\r\n%}']


def substitute(toks, r, p=.6):
    """other names, numbers, strings ... in the places the derivation left open"""
    out = []
    for t in toks:
        g, b = ('\t', t[1:]) if t.startswith('\t') else ('', t)
        if r.random() < p:
            if b in ('x', '`q`', 'a', 'c', 'd', 't', '_e', 'd1', '`f g`'):
                n = r.choice(NAMES)
                if not (g and n.startswith('`')):
                    b = n
                if b == '`a``':
                    b = '`a`'
            elif b in ('1', '2'):
                b = r.choice(NUMBERS)
            elif b in ("'s'", "'x'"):
                b = r.choice(STRINGS)
            elif b == '@p':
                b = r.choice(PARAMS)
            elif b == '{{v}}':
                b = r.choice(TEMPLATES)
        out.append(g + b)
    return out


OPENS, CLOSES = {'(', '[', '{'}, {')', ']', '}'}


def depths(toks):
    d, out = 0, []
    for t in toks:
        b = t.strip('\t')
        if b in CLOSES:
            d -= 1
        out.append(d)
        if b in OPENS:
            d += 1
    return out


def stretch(toks, r):
    """a list, chain or sequence of clauses made longer by repeating what stands between two equal tokens"""
    ds, where = depths(toks), {}
    for i, t in enumerate(toks):
        where.setdefault((t.strip('\t').upper(), ds[i]), []).append(i)
    runs = []
    for (w, d), ps in where.items():
        if w in CLOSES or w in OPENS:
            continue
        for i, j in zip(ps, ps[1:]):
            if all(x >= d for x in ds[i:j]):
                runs.append((i, j))
        if w == ',':                          # the last element of a list in brackets
            j = next((k for k in range(ps[-1] + 1, len(toks)) if ds[k] < d), None)
            if j:
                runs += [(ps[-1], j)] * 2
    if not runs:
        return toks
    i, j = r.choice(runs)
    if j - i > 40:
        return toks
    return toks[:j] + toks[i:j] * r.choice([1, 1, 2, 3]) + toks[j:]


class Cross:
    """two scripts joined where they have the same two tokens in a row"""

    def __init__(self, base):
        self.base, self.at = base, {}
        for n, t in enumerate(base):
            u = [x.strip('\t').upper() for x in t]
            for i in range(1, len(u) - 1):
                self.at.setdefault((u[i - 1], u[i]), []).append((n, i))

    def one(self, r):
        for _ in range(20):
            a = r.choice(self.base)
            if len(a) < 3:
                continue
            i = r.randrange(1, len(a))
            k = (a[i - 1].strip('\t').upper(), a[i].strip('\t').upper())
            if len(self.at.get(k, ())) > 1:
                n, j = r.choice(self.at[k])
                t = a[:i] + self.base[n][j:]
                if len(t) < 120:
                    return t
        return r.choice(self.base)


def mutate(toks, r, vocab):
    """a script with a few tokens dropped, doubled, exchanged, replaced, or cut off"""
    t = list(toks)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not t:
            break
        i, how = r.randrange(len(t)), r.randrange(7)
        if how == 0:
            del t[i]
        elif how == 1:
            t.insert(i, t[i])
        elif how == 2:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif how == 3:
            t[i] = r.choice(vocab)
        elif how == 4:
            t.insert(i, r.choice(vocab))
        elif how == 5:
            t = t[:i + 1]
        else:
            del t[i:i + r.randrange(1, 4)]
    return t


# ---------------------------------------------------------------- short texts, exhaustively
LEXICAL = {   # alphabet -> length (quick, thorough)
    'quotes': (["'", '"', '\\', 'a', '\n'], 5, 7),
    'triple': (["'", '\\', 'a'], 8, 10),
    'dquote': (['"', '\\', '\n'], 7, 9),
    'crlf': (["'''", '\r', '\n', 'a', '/*', '*/', '`', '--', '{{', '}}'], 4, 5),
    'comment': (['/', '*', 'a', ' ', '\n'], 5, 7),
    'dashes': (['-', '\n', '#', 'a', ' ', '\r'], 4, 6),
    'angles': (['<', '>', '=', 'ARRAY', ' ', '!', '|'], 4, 6),
    'types': (['ARRAY', '<', '>', '>>', ' ', 'x', '/*c*/', 'range', 'Struct'], 4, 5),
    'params': (['@', '`', 'a', ' ', '1', '?'], 4, 6),
    'braces': (['{', '}', '1', ',', 'a', '\n'], 4, 6),
    'templates': (['{', '{{', '}', '}}', '{%', '%}', 'a', ' ', '\n'], 4, 5),
    'nested': (['{{{', '}}', '}', 'a', '{'], 6, 7),
    'numbers': (['0', '1', '.', 'e', '+', '-', 'a', 'x'], 4, 5),
    'words': (['a', 'B', '_', '1', '-', '.', ' '], 4, 6),
    'ticks': (['`', 'a', '\\', '\n', '.', '-'], 4, 6),
    'unicode': (['\u00e9', '\u4e2d', '\U00020000', '\U0001f600', 'a', '1', '\n', "'", '`', '@'], 3, 4),
    'spaces': ([' ', '\t', '\r', '\n', '\u00a0', '\u3000', '\u2028', '\x0b', '\x0c', '\u0085', 'a'], 3, 4),
    'symbols': (list('!$%&()*+,-./:;<=>?@[]^|~#'), 2, 3),
    'triplesym': (['|', '>', '<', '=', '!', '&'], 4, 5),
}


def lexical(tier, only=None):
    for name, (alpha, q, t) in LEXICAL.items():
        if only and name not in only:
            continue
        for n in range(0, (q if tier == 'quick' else t) + 1):
            for p in itertools.product(alpha, repeat=n):
                yield ''.join(p)


# ---------------------------------------------------------------- expressions
BINARY = ['*', '/', '||', '+', '-', '<<', '>>', '&', '^', '|', '=', '<', '>', '<=', '>=', '!=', '<>', 'LIKE', 'NOT LIKE', 'IS', 'IS NOT',
          'IS DISTINCT FROM', 'IS NOT DISTINCT FROM', 'AND', 'OR', 'BETWEEN', 'NOT BETWEEN', 'IN', 'NOT IN', '.', '[', '(', 'LIKE ANY', 'LIKE ALL',
          'IN UNNEST']
CLASSES = ['*', '||', '+', '-', '<<', '&', '^', '|', '=', 'LIKE', 'NOT LIKE', 'IS NOT', 'IS DISTINCT FROM', 'BETWEEN', 'NOT IN', 'IN UNNEST', 'AND', 'OR',
           '.', '[', '(']
UNARY = ['', '-', 'NOT ', '~', '+', '- -', 'NOT NOT ', 'NOT -', '-~']


def apply(op, l, n, k):
    """left operand text, next operand names"""
    x = 'abcdefgh'[n]
    if op == 'BETWEEN' or op == 'NOT BETWEEN':
        return '%s %s %s%s AND %s2' % (l, op, k, x, x)
    if op == 'IN' or op == 'NOT IN':
        return '%s %s (%s, 2)' % (l, op, x)
    if op == 'IN UNNEST':
        return '%s IN UNNEST(%s)' % (l, x)
    if op in ('LIKE ANY', 'LIKE ALL'):
        return '%s %s (%s)' % (l, op, x)
    if op == '.':
        return '%s.%s' % (l, x)
    if op == '[':
        return '%s[%s]' % (l, x)
    if op == '(':
        return '%s(%s)' % (l, x)
    if op in ('IS', 'IS NOT'):
        return '%s %s %s' % (l, op, ['NULL', 'TRUE', 'FALSE'][n % 3])
    return '%s %s %s%s' % (l, op, k, x)


def expressions(tier, r):
    for u in UNARY:
        for a in BINARY:
            yield 'SELECT ' + apply(a, u + 'a', 1, '')
            yield 'SELECT ' + apply(a, 'a', 1, u)
    for a in BINARY:
        for b in BINARY:
            yield 'SELECT ' + apply(b, apply(a, 'a', 1, ''), 2, '')
            yield 'SELECT ' + apply(b, apply(a, 'NOT a', 1, ''), 2, '')
            yield 'SELECT ' + apply(b, apply(a, '-a', 1, ''), 2, '-')
            yield 'SELECT ' + apply(b, '(' + apply(a, 'a', 1, '') + ')', 2, '')
            yield 'SELECT ' + apply(a, 'a', 1, '') + ', (' + apply(b, 'c', 3, 'NOT ') + ')'
    tri = list(itertools.product(CLASSES, repeat=3))
    r.shuffle(tri)
    for a, b, c in tri[:1500 if tier == 'quick' else None]:
        yield 'SELECT ' + apply(c, apply(b, apply(a, r.choice(UNARY) + 'a', 1, r.choice(UNARY)), 2, ''), 3, r.choice(UNARY))
    for _ in range(400 if tier == 'quick' else 6000):
        l = r.choice(UNARY) + 'a'
        for n in range(1, r.randrange(4, 8)):
            l = apply(r.choice(CLASSES), l, n, r.choice(UNARY))
            if r.random() < .15:
                l = '(' + l + ')'
        yield r.choice(['SELECT ', 'SET x = ', 'ASSERT ', 'SELECT f(', 'SELECT [', 'SELECT * FROM t WHERE ']) + l


# ---------------------------------------------------------------- size
def sizes(tier):
    """long and (boundedly) deep texts"""
    n = 50
    yield 'SELECT ' + '(' * n + '1' + ')' * n
    yield 'SELECT ' + 'f(' * n + '1' + ')' * n
    yield 'SELECT ' + '[' * n + '1' + ']' * n
    yield 'SELECT ' + '-' .join([' '] * (n + 1)) + '1'
    yield 'SELECT ' + 'NOT ' * n + 'a'
    yield '(' * 8 + 'SELECT 1' + ')' * 8
    yield 'SELECT * FROM ' + '(SELECT * FROM ' * 40 + 't' + ')' * 40
    yield 'SELECT ' + '(SELECT ' * 40 + '1' + ')' * 40
    yield 'BEGIN ' * 40 + 'SELECT 1; ' + 'END; ' * 40
    yield 'IF a THEN ' * 30 + 'SELECT 1; ' + 'END IF; ' * 30
    yield 'SELECT CAST(a AS ' + 'ARRAY<' * 40 + 'INT64' + '>' * 40 + ')'
    yield 'SELECT CAST(a AS ' + 'STRUCT<a ' * 40 + 'INT64' + '>' * 40 + ')'
    yield 'SELECT ' + 'CASE WHEN a THEN ' * 40 + '1' + ' END' * 40
    yield 'SELECT a' + ' + a' * 300
    yield 'SELECT a' + '.a' * 100
    yield 'SELECT ' + ', '.join('c%d AS d%d' % (i, i) for i in range(300))
    yield 'SELECT a IN (' + ', '.join(str(i) for i in range(400)) + ')'
    yield 'SELECT * FROM t0' + ''.join(' JOIN t%d ON a.x = b.x' % i for i in range(60))
    yield ' UNION ALL '.join('SELECT %d' % i for i in range(60))
    yield 'FROM t' + ' |> WHERE a > 1' * 60
    yield '\n'.join('SELECT %d;' % i for i in range(300))
    yield '\n' * 400 + 'SELECT 1 -- c\n;' + '\n' * 300 + 'SELECT 2'
    yield 'SELECT' + ' ' * 700 + '1' + ' ' * 400 + '-- end'
    yield "SELECT '" + 'q' * 600 + "' AS " + 'n' * 300 + ', 2'
    yield 'SELECT 1 ' + '\n'.join('-- %d' % i for i in range(300)) + '\n;'
    yield '/* ' + 'w' * 600 + '\n' + 'v' * 300 + ' */ SELECT 1 /* x\n*/, 2'
    yield 'CREATE TABLE t (' + ', '.join('c%d STRUCT<a INT64, b ARRAY<STRING>>' % i for i in range(60)) + ');'
    yield 'MERGE t USING s ON a = b ' + 'WHEN MATCHED AND x = 1 THEN UPDATE SET a = 1, b = 2 ' * 30
    yield 'WITH ' + ', '.join('t%d AS (SELECT %d)' % (i, i) for i in range(60)) + ' SELECT 1'
    yield 'INSERT t VALUES ' + ', '.join('(%d, %d)' % (i, i) for i in range(100))
    yield 'DECLARE ' + ', '.join('a%d' % i for i in range(100)) + ' INT64;'
    yield 'CASE ' + 'WHEN a THEN SELECT 1; ' * 60 + 'END CASE;'


def huge(tier, r=None):
    """long texts and nesting up to the bound, only to see that they are answered"""
    n = 50
    nest = [('SELECT * FROM ', '((SELECT * FROM ', 't', ') JOIN b)', ''), ('SELECT * FROM ', '(SELECT * FROM ', 't', ')', ''), ('SELECT * FROM ', '(', 't', ')', ''),
            ('SELECT * FROM ', '(', 't', ' JOIN b)', ''), ('SELECT * FROM ', '((SELECT 1) JOIN ', 't', ')', ''), ('', '(', 'SELECT 1', ')', ''), ('SELECT ', '(', '1', ')', ''),
            ('SELECT ', '(SELECT ', '1', ')', ''), ('SELECT ', 'f(', '1', ')', ''), ('SELECT ', '[', '1', ']', ''), ('SELECT ', 'CASE WHEN a THEN ', '1', ' END', ''),
            ('SELECT ', 'STRUCT(', '1', ')', ''), ('SELECT ', 'CAST(', '1', ' AS INT64)', ''), ('SELECT ', 'IF(a, ', '1', ', 2)', ''), ('SELECT ', 'ARRAY(SELECT ', '1', ')', ''),
            ('SELECT ', 'a IN (', '1', ')', ''), ('SELECT ', 'EXISTS(SELECT ', '1', ')', ''), ('SELECT ', 'x[', '1', ']', ''), ('SELECT ', 'NOT ', 'a', '', ''), ('SELECT ', '- ', 'a', '', ''),
            ('SELECT ', 'a.b(', '1', ')', ''), ('SELECT ', 'INTERVAL ', '1', ' DAY', ''), ('SELECT ', 'a BETWEEN b AND ', '1', '', ''), ('', 'BEGIN ', 'SELECT 1; ', 'END; ', ''),
            ('', 'IF a THEN ', 'SELECT 1; ', 'END IF; ', ''), ('', 'LOOP ', 'SELECT 1; ', 'END LOOP; ', ''), ('', 'WHILE a DO ', 'SELECT 1; ', 'END WHILE; ', ''), ('', 'REPEAT ', 'SELECT 1; ', 'UNTIL a END REPEAT; ', ''),
            ('', 'FOR a IN (SELECT 1) DO ', 'SELECT 1; ', 'END FOR; ', ''), ('', 'CASE WHEN a THEN ', 'SELECT 1; ', 'END CASE; ', ''), ('', 'BEGIN EXCEPTION WHEN ERROR THEN ', 'SELECT 1; ', 'END; ', ''),
            ('', 'CREATE PROCEDURE p() BEGIN ', 'SELECT 1; ', 'END; ', ''), ('SELECT CAST(a AS ', 'ARRAY<', 'INT64', '>', ')'), ('CREATE TABLE t (a ', 'STRUCT<a ', 'INT64', '>', ')'),
            ('WITH ', 'a AS (WITH ', 'a AS (SELECT 1) SELECT 1', ') SELECT 1', ' SELECT 1'), ('', '(WITH a AS (SELECT 1) ', 'SELECT 1', ')', ''), ('FROM t ', '|> JOIN (FROM t ', '|> WHERE a', ') ON b', ''),
            ('SELECT 1 ', 'UNION ALL (SELECT 1 ', '', ')', ''), ('SELECT * FROM t ', 'MATCH_RECOGNIZE (PATTERN (', 'a', ')', ')'), ('', 'l: LOOP ', 'BREAK l; ', 'END LOOP l; ', ''),
            ('SELECT * FROM t MATCH_RECOGNIZE (PATTERN (', '(', 'a', ')', '))'), ('SELECT f() OVER (ORDER BY ', 'f(', '1', ')', ')'), ('UPDATE t SET a = ', '(', '1', ')', ''),
            ('INSERT t VALUES ', '(', '1', ')', ''), ('SELECT ', '((a, ', '1', '))', ''), ('SELECT * FROM UNNEST(', '[', '1', ']', ')')]
    for d in ([n] if tier == 'quick' else [10, 25, 40, n]):
        for pre, o, m, c, post in nest:
            yield pre + o * d + m + c * d + post
            yield pre + o * d + m + c * (d - 1)              # one too few
            yield pre + o * d + m + c * (d + 1) + post       # one too many
            yield pre + o * d                                # nothing closed
            yield pre + (o + '/* c */ ') * d + m + ('-- c\n' + c) * d + post
    k = 3000 if tier == 'quick' else 20000
    for s in ('SELECT 1;', '-- c\n', '/* c */', '\n', 'SELECT * FROM a JOIN b ON c; ', 'BREAK; ', 'CREATE ', 'INSERT t VALUES (1); ', 'DECLARE a INT64; ', 'SET a = 1; ',
              '\u4e2d', 'SELECT "\u00e9" ', 'BEGIN END; ', 'CALL f(); ', 'SELECT a[1].b; ', 'IF a THEN END IF; '):
        yield s * k
    for s in ('a ', 'SELECT a, ', ', ', '; ', "'s' ", '`a`.', '{{v}} ', '@p ', '1 ', '1.', 'a + ', 'x-', 'x.y ', '|> ', 'END ', 'AS ', 'IN ', 'AND ', 'IS '):
        yield s * n                                          # each taken for a label of the next: nesting
    for s in ('a.', 'a + ', 'a AND ', 'f(a) || ', 'a, ', 'a = 1 OR '):
        yield 'SELECT ' + s * 900 + 'a'
    for s in (' JOIN b ON c', ', b', ' CROSS JOIN b', ' LEFT JOIN b USING (c)'):
        yield 'SELECT * FROM a' + s * 300
    yield 'SELECT 1' + ' UNION ALL SELECT 1' * 300
    yield 'FROM a' + ' |> WHERE b' * 300
    yield 'FROM a' + ' |> JOIN b ON c' * 300
    yield 'MERGE a USING b ON c' + ' WHEN MATCHED THEN DELETE' * 500


# ---------------------------------------------------------------- relations
def concat(a, b, r):
    sep = r.choice([' ', '\n', '\n\n', '\r\n', ' -- c\n', ' /* c */ ', '\n# x\n'])
    return {'rel': 'concat', 'xs': [a, b, a + sep + b]}


def block(a, r):
    sep = r.choice([' ', '\n', '\n  ', '\r\n'])
    return {'rel': 'block', 'xs': [a, 'BEGIN' + sep + a + sep + 'END;']}


def with_semicolon(toks):
    return toks if toks and toks[-1].strip('\t') == ';' else toks + [';']
