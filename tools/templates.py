"""Scripts put together from templates: every combination of two choices, lists of one to four elements.

{a|b|} one of the alternatives; <x> a part named below; <x+> a list of one to four of it; <x*> nothing or such a list,
<x~> one to three of it in a row. What a script means is never said here: the specification decides."""
import random, re

G = {
    # small parts
    'id': '{a|b|c|d1|_e|`f g`|value|date}', 'lit': "{1|2.5|'s'|NULL|TRUE|@p|DATE '2020-01-01'|b'x'}", 'al': '{|| AS <id>| <id>}',
    'path': '{t|d.t|p.d.t|`p.d.t`|my-p.d.t|«t»}',
    'e': '{<id>|<lit>|<id>.<id>|<fn>|<id> + <lit>|(<id>)|<id>[0]|-<id>|NOT <id>|<id> = <lit>|<id> AND <id>|(SELECT 1)|<big>}',
    'big': "{CASE WHEN <id> THEN <lit> END|CASE <id> WHEN 1 THEN 2 WHEN 3 THEN 4 ELSE 5 END|CAST(<id> AS <ty>)|EXTRACT(DAY FROM <id>)|INTERVAL 1 DAY|ARRAY<INT64>[1]|[<lit>, <lit>]|STRUCT(1 AS a, 2)|(1, 2)|<id> BETWEEN 1 AND 2|<id> NOT IN (1, 2)|<id> IN UNNEST(<id>)|<id> LIKE 'x'|<id> IS NOT NULL|EXISTS (SELECT 1)|ARRAY(SELECT 1)|<id> IN (SELECT 1)|IF(<id>, 1, 2)|<id> IS NOT DISTINCT FROM <lit>|<id> LIKE ANY ('x', 'y')|WITH(x AS 1, x)}",
    'fn': "{f()|f(<arg+>)|d.f(1)|COUNT(*)|SAFE.f(1)|SUM({DISTINCT |}<id>{ IGNORE NULLS| RESPECT NULLS|}{ HAVING MAX a|}{ ORDER BY <ord+>|}{ LIMIT 1|})<over>|f(1)<over>}",
    'arg': '{<id>|<lit>|x => 1|TABLE t|<id> + 1|*}',
    'over': '{|| OVER w| OVER ()| OVER (<wspec>)}',
    'wspec': '{w|}{ PARTITION BY <id+>|}{ ORDER BY <ord+>|}{ <frame>|}',
    'frame': '{ROWS|RANGE} {<fs>|<fs>|BETWEEN <fs> AND <fe>}', 'fs': '{UNBOUNDED PRECEDING|1 PRECEDING|CURRENT ROW|1 + 1 PRECEDING}', 'fe': '{UNBOUNDED FOLLOWING|CURRENT ROW|2 FOLLOWING|1 PRECEDING}',
    'ord': '<id>{| ASC| DESC}{| NULLS FIRST| NULLS LAST}',
    'ty': "{INT64|STRING(10)|NUMERIC(10, 2)|ARRAY<INT64>|STRUCT<a INT64>|STRUCT<a INT64, b ARRAY<STRING>>|STRUCT<INT64, STRING>|RANGE<DATE>|DATE}",
    'opts': "OPTIONS({|<opt+>})", 'opt': "<id> = {1|'x'|['a']|[('a', 'b')]|TRUE|-1|f(1)|NULL}",
    # queries
    'q': '{<with>|}{<sel>|<sel>|<sel>|<sel> <setop> <sel>|<sel> <setop> (<sel>) <setop> <sel>|(<sel>)|(<sel>) <setop> <sel>|FROM <from>}{| <pipe~>}',
    'q1': '{SELECT 1|SELECT a FROM t|WITH x AS (SELECT 1) SELECT 2|SELECT 1 UNION ALL SELECT 2|(SELECT 1)|FROM t|FROM t ¶ WHERE a}',
    'with': 'WITH {RECURSIVE |}<cte+> ', 'cte': '<id> AS (<q1>)',
    'setop': '{UNION ALL|UNION DISTINCT|INTERSECT DISTINCT|EXCEPT DISTINCT|INNER UNION ALL|FULL OUTER UNION ALL BY NAME|LEFT UNION DISTINCT BY NAME ON (a, b)|UNION ALL CORRESPONDING|UNION ALL STRICT CORRESPONDING BY (a)}',
    'sel': 'SELECT {|WITH DIFFERENTIAL_PRIVACY OPTIONS(a = 1) |}{|DISTINCT |ALL }{|AS STRUCT |AS VALUE }<item+>{|||,}{| FROM <from>}{| WHERE <e>}{| GROUP BY <group>}{| HAVING <e>}{| QUALIFY <e>}{| WINDOW <wdef+>}{| ORDER BY <ord+>}{| LIMIT {1|@p}{| OFFSET 2}}',
    'item': '{<e><al>|*|<id>.*|* EXCEPT (<id+>)|* REPLACE (<e> AS <id>)|<id>.* EXCEPT (a) REPLACE (1 AS b)|<e><al>}',
    'group': '{<gi+>|ALL|<gi+>, ROLLUP(<id+>)|CUBE(a, b)|GROUPING SETS (a, (b, c), ROLLUP(d), ())|()}', 'gi': '{<id>|1|<e>|(a, b)}',
    'wdef': '<id> AS {w|(<wspec>)|()}',
    'from': '{<tbl>|<tbl>|<tbl>, <tbl>|<tbl> <join~>|<tbl>, <tbl> <join~>|<tbl> <join~>, <tbl>}',
    'tbl': '{<path><al>{||| <tail>| TABLESAMPLE SYSTEM ({10|@p} PERCENT)}|<path><al> FOR SYSTEM_TIME AS OF <e>{||| <tail>}|(<q1>)<al>{||| <tail>}|UNNEST({<id>|[1, 2]|a.b}){<al>| AS <id>}{|| WITH OFFSET| WITH OFFSET <id>| WITH OFFSET AS <id>}|f(<arg+>)<al>{||| <tail>}|(<tbl> <join>)|<path>.<id><al>}',
    'tail': "{PIVOT({SUM(a)|SUM(a) AS x, COUNT(*) y} FOR <id> IN ({1|1, 2 AS u|'x' v, 'y', 'z'}))<al>|UNPIVOT{| INCLUDE NULLS| EXCLUDE NULLS}({a FOR b IN (<uc+>)|(a, b) FOR c IN ((d, e), (f, g) AS 1)})<al>|MATCH_RECOGNIZE ({|PARTITION BY <id+> }ORDER BY <ord+> MEASURES <id> AS <id>{|, b AS c} {|AFTER MATCH SKIP TO NEXT ROW |AFTER MATCH SKIP PAST LAST ROW }PATTERN (a{|+|*|?|‹1,2›|‹2›} b) DEFINE <def+>{| OPTIONS(a = TRUE)})<al>}",
    'def': '<id> AS <id> > 1', 'uc': "{a|b AS 1|c 'x'}",
    'join': "{JOIN|INNER JOIN|LEFT JOIN|LEFT OUTER JOIN|RIGHT JOIN|FULL OUTER JOIN|CROSS JOIN} <tbl>{ ON <e>| USING (<id+>)|}",
    'pipe': "¶ {WHERE <e>|SELECT {|DISTINCT }<item+>|EXTEND <ei+>|SET <set+>|DROP <id+>|RENAME <ren+>|AS <id>|AGGREGATE {<agg+>{| GROUP BY <agg+>}|GROUP BY <agg+>}|DISTINCT|ORDER BY <ord+>|LIMIT 1{| OFFSET 1}|<join>|<setop> <pq+>|CALL f(<arg+>)<al>|<tail>|TABLESAMPLE SYSTEM (1 PERCENT)}",
    'ei': '<e><al>', 'ren': '<id>{ | AS }<id>', 'agg': '{<fn>|<id>}<al>{| ASC| DESC| NULLS LAST| DESC NULLS FIRST}', 'pq': '(<q1>)', 'set': '<id>{|.<id>} = <e>',
    # DML
    'dml': '{<insert>|<delete>|<update>|<merge>|<merge>|TRUNCATE TABLE <path>}',
    'insert': 'INSERT {|INTO }<path>{| (<id+>)} {VALUES <row+>|<q>|(<q1>)|VALUES <row>}', 'row': '({<ve>|<ve>, <ve>|<ve>, <ve>, <ve>})', 've': '{<e>|DEFAULT}',
    'delete': 'DELETE {|FROM }<path><al> {WHERE <e>|WHERE TRUE}',
    'update': 'UPDATE <path><al> SET <uset+>{| FROM <from>}{| WHERE <e>}', 'uset': '<id>{|.<id>|.a.b} = {<e>|DEFAULT}',
    'merge': 'MERGE {|INTO }<path><al> USING {<path>|(<q1>)|UNNEST([1])|f(1)}<al> ON <e> <when~>',
    'when': 'WHEN {MATCHED|NOT MATCHED|NOT MATCHED BY TARGET|NOT MATCHED BY SOURCE}{| AND <e>} THEN {DELETE|UPDATE SET <uset+>|INSERT{| (<id+>)} {ROW|VALUES <row>}}',
    # DDL
    'ine': '{|IF NOT EXISTS }', 'ie': '{|IF EXISTS }', 'or': '{|OR REPLACE }', 'temp': '{|TEMP |TEMPORARY }',
    'col': '<id> <ty>{| DEFAULT {1|f()}}{| NOT NULL}{| <opts>}', 'pc': '<id> <ty>', 'col2': "{<id> {STRING COLLATE 'und:ci'|INT64 PRIMARY KEY NOT ENFORCED|INT64 REFERENCES u(a) NOT ENFORCED|INT64 CONSTRAINT c REFERENCES u(a)|STRING(10) COLLATE 'x' NOT NULL OPTIONS()}|<col>|<cons>}",
    'cons': '{|CONSTRAINT c }{PRIMARY KEY (<id+>){| NOT ENFORCED}|FOREIGN KEY (<id+>) REFERENCES <path>(<id+>){| NOT ENFORCED}}',
    'part': 'PARTITION BY {<id>|DATE(a)|DATE_TRUNC(a, MONTH)|RANGE_BUCKET(a, GENERATE_ARRAY(1, 2, 3))}',
    'ddl': '{<ctable>|<ctable>|<cview>|<cfunc>|<cfunc>|<cproc>|<cmisc>|<cmisc>|<alter>|<alter>|<drop>}',
    'ctable': "CREATE <or>{<temp>TABLE <ine><path>{| LIKE <path>| COPY <path>}{ (<col2+>)| (<col+>)|}<tabopts>{| AS <q>}|<temp>TABLE <ine><path> (<col2+>)<tabopts>|{|SNAPSHOT }TABLE <ine><path> CLONE <path>{| FOR SYSTEM_TIME AS OF <e>}{| <opts>}|EXTERNAL TABLE <ine><path>{| (<col+>)}{| WITH CONNECTION p.c}{| WITH PARTITION COLUMNS{| (<pc+>)}} <opts>}",
    'tabopts': "{|| DEFAULT COLLATE 'x'}{| <part>}{| CLUSTER BY <id+>}{|| WITH CONNECTION p.c}{| <opts>}",
    'cview': 'CREATE <or>{VIEW <ine><path>{| (<vc+>)}{| <opts>} AS <q>|MATERIALIZED VIEW <ine><path>{| <part>}{| CLUSTER BY <id+>}{| <opts>} AS {<q>|REPLICA OF t}}', 'vc': '<id>{| OPTIONS(description = "x")}',
    'cfunc': "CREATE <or>{<temp>{FUNCTION <ine>{f|d.f}({|<par+>})|AGGREGATE FUNCTION <ine>f(<id> INT64{| NOT AGGREGATE}{|, <par+>})}{| RETURNS <ty>} AS (<e>){| <opts>}|<temp>FUNCTION <ine>f({|<par+>}) RETURNS <ty> {|DETERMINISTIC |NOT DETERMINISTIC }LANGUAGE js{| <opts>} AS '''x'''|FUNCTION f({|<par+>}) RETURNS <ty> {LANGUAGE python{| WITH CONNECTION p.c}{| <opts>} AS r'''x'''|REMOTE WITH CONNECTION p.c{| <opts>}}|TABLE FUNCTION <ine>f({|<par+>}){| RETURNS TABLE<a INT64, b STRING>}{| <opts>} AS <q>}",
    'par': '<id> {<ty>|ANY TYPE}',
    'cproc': "CREATE <or>PROCEDURE <ine>{p|d.p}({|<ppar+>}){| WITH CONNECTION p.c}{| <opts>} {BEGIN <stmts> END|BEGIN END|LANGUAGE python AS '''x'''|LANGUAGE python}", 'ppar': '{|IN |OUT |INOUT }<id> <ty>',
    'cmisc': "CREATE {SCHEMA <ine>d{| DEFAULT COLLATE 'x'}{| <opts>}|<or>{SEARCH|VECTOR} INDEX <ine>i ON <path>({ALL COLUMNS|<id+>}){| STORING (<id+>)}{| <opts>}|<or>MODEL <ine>m{| TRANSFORM (<e><al>, b)}{| INPUT (<pc+>) OUTPUT (<pc+>)}{| REMOTE WITH CONNECTION c}{| <opts>}{| AS <q>}|<or>ROW ACCESS POLICY <ine>r ON <path>{| GRANT TO ('u', 'v')} FILTER USING (<e>)|{CAPACITY|RESERVATION|ASSIGNMENT} p.r {AS JSON '''x'''|<opts>}|CONNECTION c}",
    'alter': "ALTER {TABLE <ie><path> {<aact>|<aadd+>|<adrop+>|<aren+>|ADD <cons>, ADD <cons>}|SCHEMA <ie>d SET {<opts>|DEFAULT COLLATE 'x'}|VIEW <ie><path> {SET <opts>|ALTER COLUMN a SET <opts>}|MATERIALIZED VIEW <ie><path> SET <opts>|ORGANIZATION SET <opts>|PROJECT p SET <opts>|BI_CAPACITY p.r SET <opts>|MODEL <ie>m SET <opts>|CAPACITY p.c SET <opts>|RESERVATION p.r SET <opts>}",
    'aadd': 'ADD COLUMN <ine><col>', 'adrop': 'DROP COLUMN <ie><id>', 'aren': 'RENAME COLUMN <ie><id> TO <id>',
    'aact': "{SET <opts>|ADD <cons>|RENAME TO <id>|DROP CONSTRAINT <ie><id>|DROP PRIMARY KEY{| IF EXISTS}|ALTER COLUMN <ie><id> {SET <opts>|SET DATA TYPE <ty>|SET DEFAULT 1|DROP DEFAULT|DROP NOT NULL}|SET DEFAULT COLLATE 'x'}",
    'drop': "{DROP {TABLE|VIEW|EXTERNAL TABLE|SNAPSHOT TABLE|MATERIALIZED VIEW|FUNCTION|TABLE FUNCTION|PROCEDURE|MODEL|CAPACITY|RESERVATION|ASSIGNMENT} <ie><path>|DROP {|EXTERNAL }SCHEMA <ie>d{| CASCADE| RESTRICT}|DROP {SEARCH|VECTOR} INDEX <ie>i ON t|DROP {ROW ACCESS POLICY <ie>r|ALL ROW ACCESS POLICIES} ON t|UNDROP SCHEMA <ine>d}",
    # scripting and the rest
    'stmts': '<stmt>;{| <stmt>;| <stmt>; <stmt>;}',
    'stmt': '{SELECT 1|SET a = 1|{<ctl>}|INSERT t VALUES (1)|BREAK|CALL p()}',
    'ctl': "{<lbl>BEGIN{| <stmts>}{| EXCEPTION WHEN ERROR THEN{| <stmts>}} END|IF <e> THEN{| <stmts>}{| ELSEIF <e> THEN{| <stmts>}{| ELSEIF b THEN <stmts>}}{| ELSE{| <stmts>}} END IF|<lbl>LOOP{| <stmts>} END LOOP|<lbl>WHILE <e> DO{| <stmts>} END WHILE|<lbl>REPEAT{| <stmts>} UNTIL <e> END REPEAT|<lbl>FOR r IN (<q1>) DO{| <stmts>} END FOR|CASE{| <id>} <swhen~>{| ELSE{| <stmts>}} END CASE|l: {LOOP BREAK l; END LOOP|BEGIN LEAVE l; END|WHILE a DO CONTINUE l; END WHILE|LOOP ITERATE; END LOOP} l}",
    'lbl': '{||x: }', 'swhen': 'WHEN <e> THEN{| <stmts>}',
    'other': "{<ctl>|<ctl>|DECLARE <id+> {<ty>|<ty> DEFAULT <e>|DEFAULT <e>}|SET {<id> = <e>|(<id+>) = (<lit+>)|@@a.b = 1|(a, b) = (SELECT AS STRUCT 1, 2)}|EXECUTE IMMEDIATE {'x'|<id>|CONCAT('a', 'b')}{| INTO <id+>}{| USING <ua+>}|BEGIN{| TRANSACTION}|COMMIT{| TRANSACTION}|ROLLBACK{| TRANSACTION}|RAISE{| USING MESSAGE = 'x'}|RETURN|{BREAK|LEAVE|CONTINUE|ITERATE}{| l}|CALL {p|d.p|my-p.d.p}({|<e>, <lit>|<lit>})|GRANT {`r`|<role+>} ON {TABLE|VIEW|SCHEMA|EXTERNAL TABLE|«x»} <path> TO <str+>|REVOKE <role+> ON {TABLE|SCHEMA} <path> FROM <str+>|ASSERT <e>{| AS 'x'}|EXPORT DATA {|WITH CONNECTION p.c }<opts> AS <q>|EXPORT MODEL m{| <opts>}|LOAD DATA {INTO|OVERWRITE} <path>{|| PARTITIONS (a = 1)}{| (<pc+>)}{| <part>}{| CLUSTER BY <id+>}{| <opts>} FROM FILES (<opt+>){| WITH PARTITION COLUMNS{| (<pc+>)}}{| WITH CONNECTION p.c}|CREATE EXTERNAL SCHEMA d {WITH CONNECTION p.c |}<opts>}",
    'ua': '<lit>{| AS <id>}', 'role': '{`r`|a|`x/y`}', 'str': "{'u'|\"user:x\"}",
}
KINDS = {'query': 'q', 'dml': 'dml', 'ddl': 'ddl', 'other': 'other', 'expr': 'e', 'from': 'from', 'merge': 'merge', 'ctable': 'ctable', 'pipe': 'pipe', 'alter': 'alter', 'cfunc': 'cfunc', 'ctl': 'ctl'}
TOK = re.compile(r'<([a-z0-9]+)([+*~]?)>|[{}|]')
LITERAL = {'\u00b6': '|>', '\u00ab': '{{', '\u00bb': '}}', '\u2039': '{', '\u203a': '}'}     # ¶ « » ‹ › stand for what the template syntax uses


def compile_(s):
    """a template as a sequence: text, ('alt', [sequences]) or ('ref', name, how)"""
    def seq(i):
        out, alts = [], []
        while i < len(s):
            m = TOK.match(s, i)
            if m is None:
                c = LITERAL.get(s[i], s[i])
                if out and isinstance(out[-1], str):
                    out[-1] += c
                else:
                    out.append(c)
                i += 1
            elif m.group(1):
                assert m.group(1) in G, m.group()
                out.append(('ref', m.group(1), m.group(2)))
                i = m.end()
            elif m.group() == '{':
                sub, i = seq(i + 1)
                out.append(('alt', sub))
            elif m.group() == '|':
                alts.append(out)
                out, i = [], i + 1
            else:
                return alts + [out], i + 1
        assert not alts, s
        return out, i
    return seq(0)[0]


C = {k: compile_(v) for k, v in G.items()}


def expand(name, r, depth, made):
    """text of one expansion; made collects the choices"""
    def seq(x, where):
        out = ''
        for n, y in enumerate(x):
            at = where + (n,)
            if isinstance(y, str):
                out += y
            elif y[0] == 'alt':
                k = r.randrange(len(y[1]))
                if depth <= 0:
                    ws = [weight(z) for z in y[1]]
                    k = r.choice([j for j, w in enumerate(ws) if w <= min(ws) + 1.2])
                made.append((at, k))
                out += seq(y[1][k], at + (k,))
            else:
                _, ref, how = y
                k = 1 if not how else r.choice([1, 1, 2, 3, 4] if how == '+' else [1, 1, 2, 3])
                if depth <= 0:
                    k = 1
                if how:
                    made.append((at, k))
                out += (', ' if how == '+' else ' ').join(expand(ref, r, depth - 1, made) for _ in range(k))
        return out
    return seq(C[name], (name,))


def weight(x):
    return sum(len(y) / 1000 if isinstance(y, str) else 1 if y[0] == 'alt' else {'e': 5, 'q': 9, 'stmts': 9, 'q1': 3, 'tbl': 6, 'from': 7, 'ctl': 9, 'big': 8, 'fn': 4, 'pipe': 9}.get(y[1], 2) for y in x)


def scripts(kind, n, r, tries=6):
    """n scripts that between them hold as many pairs of choices as possible"""
    seen, out, texts = set(), [], set()
    wrap = {'e': 'SELECT %s', 'from': 'SELECT * FROM %s', 'pipe': 'FROM t %s'}.get(KINDS[kind], '%s')
    while len(out) < n:
        best = None
        for _ in range(tries):
            made = []
            s = wrap % expand(KINDS[kind], r, r.choice([2, 3, 3, 4, 5]), made)
            if len(s) > 420:
                continue
            new = {(a, b) for i, a in enumerate(made) for b in made[i:i + 12]} - seen
            if best is None or len(new) / (len(s) + 60) > best[0]:
                best = (len(new) / (len(s) + 60), new, s)
        if best is None:
            continue
        seen |= best[1]
        s = re.sub(' +', ' ', best[2]).strip()
        if s not in texts:
            texts.add(s)
            out.append(s)
        elif r.random() < .01:
            out.append(s)
    return out


if __name__ == '__main__':
    import sys
    for s in scripts(sys.argv[1], int(sys.argv[2]), random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)):
        print(s)
