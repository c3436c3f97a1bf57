#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run it after editing the table)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, L, T, C, B, Y = 'src/parser.rs', 'src/lexer.rs', 'src/token.rs', 'src/cst.rs', 'src/lib.rs', 'src/types.rs'
K = 'src/constants.rs'
WF = ('A text is "in the language" when it is a script of the GoogleSQL statements the library supports '
      '(the ones its TypeScript declarations name), written as BigQuery documents them.')


def p(id, title, statement, over, q, why, files, mech, spec):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=['parse()/tokenize() of the built npm package'], hook_needed=None)), spec


TESTS = 'The existing tests compare a fixed list of about 390 texts with expected trees; '
MC = 'TLA+ specification (TLC): %s; conformance of recorded library behaviour checked by TLC'
PROPS = [
 p('C01', 'The tree holds every token of the text exactly once and nothing else',
   'For every text that parse accepts, the tokens found in the returned forest (including comment tokens) are exactly the tokens of the text: each appears exactly once, with its literal and its position unchanged, and none is invented, lost, duplicated or altered. The tokens of each top-level statement are a contiguous run of the text, and the statements come in the order of the text. This covers every text of the language, with comments anywhere.',
   ['inputs'], 'for every text the parser accepts that is in the language, with any comments and layout',
   TESTS + 'a token dropped or doubled in a rarely used combination of clauses, or a comment lost at one particular place, shows only for that combination. A formatter built on the tree silently deletes code then.',
   [P, C, 'src/cst.rs'], [('construct_node attaches tokens and comments; next_token advances', 'src/parser.rs construct_node, next_token, get_token'), ('push_node / push_node_vec store children under unique keys', 'src/cst.rs')],
   MC % 'grammar machine, invariant LosslessInv over all derivations'),
 p('C02', 'Token positions and literals are an exact cover of the source text',
   'For every text that tokenize accepts, each token\'s (line, column) is the 1-based place in the text (columns and lines counted in characters, a line feed ends a line) at which exactly the token\'s literal stands, the tokens are in text order without overlap, and everything between two tokens is white space only. One end-of-input token with an empty literal closes the list. parse reports the same positions for the same text.',
   ['inputs'], 'for every text, of any characters, that is tokenized without error',
   TESTS + 'positions after multi-line strings, comments, CRLF, tabs, non-ASCII characters or unusual white space are sampled at a handful of places.',
   [L, T], [('line/column counters', 'src/lexer.rs next_char, next_token'), ('literal construction', 'src/lexer.rs construct_token, read_*')],
   'TLA+ lexer specification, exhaustive TLC over short texts (PartitionInv, CoverInv, ProgressInv); recorded tokenizations checked by TLC'),
 p('C03', 'Every text is split at the token boundaries GoogleSQL defines',
   'tokenize splits every text at the documented boundaries: words, numbers (decimal, exponent, hexadecimal), single, double and triple quoted strings with escapes, backquoted names, named/system/positional parameters, template placeholders, the three comment forms, and longest-match operators, with `<` and `>` of types kept single. A string, backquoted name, block comment or template that is never closed is reported as an error and never turned into a token.',
   ['inputs'], 'for every text over any characters',
   TESTS + 'boundaries depend on what stands next to what (escape before quote, `>>` inside or outside a type, `.` next to digits, dash in names, quote runs), which is a combinatorial space.',
   [L, T], [('next_token dispatch', 'src/lexer.rs next_token'), ('readers', 'src/lexer.rs read_string, read_multiline_string, read_number, read_parameter, read_back_quoted, read_multiline_comment, read_comment, read_identifier'), ('type depth', 'src/lexer.rs type_declaration_depth')],
   'TLA+ lexer specification, exhaustive TLC over short texts (ErrorInv, TrailInv, OpenInv, Forward); recorded tokenizations checked by TLC'),
 p('C04', 'Every call returns: a value or an error object, never a panic or a hang',
   'For every text whatsoever, tokenize and parse return within time polynomial in its length, either normally or by throwing the documented error object; they never panic, trap, exhaust memory or loop. (Nesting is limited to 50 levels: the stack of the platform bounds recursion.)',
   ['inputs'], 'for every text: well-formed, damaged, cut off at any point, or random; nesting at most 50',
   TESTS + 'almost all are valid scripts; the places where input can end or be wrong, and combinations that make backtracking expensive, are unbounded.',
   [P, L, B, 'src/error.rs'], [('token look-ahead at end of input', 'src/parser.rs get_offset_index, get_token, next_token, is_eof'), ('error propagation', 'src/error.rs, src/lib.rs'), ('backtracking on parenthesised FROM items', 'src/parser.rs parse_table'), ('character look-ahead', 'src/lexer.rs get_char, next_char')],
   MC % 'termination of the grammar machine (TotalInv)'),
 p('C05', 'Valid scripts are accepted; scripts cut off or broken fail at the right token',
   'parse accepts every script of the language. A script that is cut off in the middle of a construct is rejected, and so is one with an unknown word where the object of CREATE or ALTER, the action of ALTER, the action of a MERGE branch, a pipe operator or the word after an infix NOT must stand, with a label on a statement that cannot have one, or with a parenthesised query or CTE that lacks its closing parenthesis. The error carries a message and the position of the offending token as it stands in the text (the position of end of input when the script ends too early). Elsewhere the parser tolerates a wrong word in place of a keyword; what it makes of it is not covered.',
   ['inputs'], 'for every script of the language, and every such script cut off after any token or with such a word replaced',
   TESTS + 'fewer than ten of them are errors; acceptance is tested for the sampled clause combinations only.',
   [P, 'src/error.rs', L], [('error construction with position', 'src/error.rs, src/parser.rs'), ('expectations of each construct', 'src/parser.rs')],
   MC % 'grammar machine, invariants AcceptInv and TotalInv'),
 p('C06', 'Every comment is kept and attached to the token it belongs to',
   'Every comment of an accepted script appears exactly once in the tree, as a child of the node of a neighbouring token: a comment that starts on the line on which the preceding token starts, with that token\'s trailing comments, any other comment with the leading comments of the token that follows (comments before the end of input with the end-of-input node). Comments attached to one node keep the order of the text.',
   ['inputs'], 'for every script of the language and every way of placing comments in it',
   TESTS + 'comments appear at a fixed set of places; there is a gap next to every token of every construct.',
   [P], [('comments collected by position', 'src/parser.rs construct_node, parse_code'), ('leading comments and offsets', 'src/parser.rs get_offset_index, next_token, Parser::new')],
   MC % 'comment attachment, invariant CommentInv'),
 p('C07', 'Comments never change how a script is parsed',
   'Inserting, removing or changing comments between the tokens of a text changes neither whether parse accepts it nor the tree it returns, apart from the comment nodes themselves and token positions.',
   ['inputs'], 'for every text and every placement of comments between its tokens',
   TESTS + 'look-ahead is written with token offsets that must skip comments at every site; each site is a separate chance to count a comment as a token.',
   [P], [('look-ahead skips comments', 'src/parser.rs get_offset_index, get_token, get_precedence'), ('comment before type bracket', 'src/lexer.rs next_token')],
   MC % 'CommentInv and AcceptInv; pairs of texts'),
 p('C08', 'Keyword case does not matter',
   'Changing the letter case of keywords (and of any unquoted word) changes neither acceptance nor the structure of the tree: node types, children and positions stay the same and only the literals show the new case.',
   ['inputs'], 'for every text and every choice of letter case of its words',
   TESTS + 'most are upper case only; each keyword comparison (hundreds) is a separate chance to be case-sensitive.',
   [P, T, L, K], [('case-insensitive comparison', 'src/token.rs is, in_, is_reserved_keyword'), ('string comparisons on literals', 'src/parser.rs, src/lexer.rs')],
   MC % 'pairs of texts that differ in case'),
 p('C09', 'Layout does not matter',
   'Changing the white space between tokens (kind, amount, line breaks; none where tokens cannot merge) changes neither acceptance nor the tree, apart from the line and column of tokens.',
   ['inputs'], 'for every text and every layout of it that leaves the tokens the same',
   TESTS + 'they use one layout per text.',
   [L, P], [('white space', 'src/lexer.rs skip_whitespace, is_whitespace'), ('type brackets after white space', 'src/lexer.rs next_token'), ('dashed names rely on adjacency', 'src/parser.rs parse_identifier')],
   MC % 'pairs of texts that differ in layout'),
 p('C10', 'Expressions get the structure GoogleSQL operator precedence prescribes',
   'Every expression is returned with operators bound as GoogleSQL defines: field and element access and calls bind tightest, then unary operators, `*` `/` `||`, `+` `-`, shifts, `&`, `^`, `|`, comparisons (with LIKE, IN, BETWEEN, IS and negated forms), NOT, AND, OR; operators of one level associate to the left. Function calls, CASE, CAST, EXTRACT, INTERVAL, ARRAY, STRUCT, window functions, aggregate modifiers and subqueries appear as operands with all their parts under the declared children.',
   ['inputs'], 'for every expression of any size wherever expressions may stand',
   TESTS + 'pairs and triples of operators at different levels and with unary operators number in the thousands; a handful are sampled.',
   [P], [('precedence table', 'src/parser.rs get_precedence'), ('precedence climbing', 'src/parser.rs parse_expr, parse_binary_operator, parse_between_operator, parse_in_operator, parse_is_distinct_from_operator'), ('window specifications', 'src/parser.rs parse_window_expr')],
   MC % 'grammar machine, invariant PrecInv against an independent precedence table'),
 p('C11', 'Parsing is compositional: statements do not influence each other',
   'Parsing two scripts one after the other (the first closed by a semicolon) gives the statements of the first followed by those of the second, only positions shifted. A statement nested in BEGIN/END, IF, LOOP, WHILE, REPEAT, FOR, CASE, an exception handler or a procedure body gives the same tree as it does on its own.',
   ['inputs', 'histories'], 'for every sequence and nesting of statements',
   TESTS + 'nearly all hold a single statement; state that leaks from one statement to the next needs particular pairs.',
   [P, L], [('statement loop', 'src/parser.rs parse_code, parse_statement'), ('statement lists', 'src/parser.rs parse_keyword_with_statements'), ('lexer state between statements', 'src/lexer.rs type_declaration_depth')],
   MC % 'invariants ComposeInv and BlockInv; triples of texts'),
 p('C12', 'Queries: every clause ends up in its own place of the tree',
   'Every query is returned with each clause under its declared child and nowhere else: WITH and its tables, SELECT list modifiers, FROM with joins, TABLESAMPLE, PIVOT, UNPIVOT, MATCH_RECOGNIZE and UNNEST, WHERE, GROUP BY, HAVING, QUALIFY, WINDOW, ORDER BY, LIMIT/OFFSET. Set operators associate to the left, joins nest to the left, and every combination of optional clauses is handled alike.',
   ['inputs'], 'for every query of the language, any combination and nesting of its clauses',
   TESTS + 'each clause is sampled in one or two combinations; there are exponentially many.',
   [P], [('SELECT', 'src/parser.rs parse_select_statement'), ('FROM items', 'src/parser.rs parse_table'), ('set operators', 'src/parser.rs parse_set_operator, parse_by_name_clause, parse_corresponding_clause'), ('clauses', 'src/parser.rs parse_with_clause, parse_cte, parse_groupby_exprs, parse_xxxby_exprs, parse_window_clause, parse_pivot_config_clause, parse_unpivot_config_clause, parse_match_recognize_config')],
   MC % 'grammar machine for queries, derivations of the grammar'),
 p('C13', 'DML: INSERT, DELETE, TRUNCATE, UPDATE and MERGE keep every clause',
   'Every INSERT, DELETE, TRUNCATE, UPDATE and MERGE statement is returned with target, aliases, column lists, values or query, assignments, FROM, WHERE, conditions and all WHEN branches under their declared children, in the order of the text, for every combination of optional parts.',
   ['inputs'], 'for every DML statement of the language',
   TESTS + 'about 20 DML texts are sampled.',
   [P], [('DML', 'src/parser.rs parse_insert_statement, parse_delete_statement, parse_truncate_statement, parse_update_statement, parse_merge_statement')],
   MC % 'grammar machine for DML, derivations of the grammar'),
 p('C14', 'DDL: CREATE, ALTER, DROP and UNDROP keep every clause',
   'Every CREATE, ALTER, DROP and UNDROP statement (schemas, tables, clones, snapshots, views, materialized and external ones, functions, procedures, indexes, models, row access policies, reservations, capacities, assignments, columns, constraints) is returned as the statement kind it is, with each clause under its declared child, for every combination of optional parts.',
   ['inputs'], 'for every DDL statement of the language',
   TESTS + 'one or two texts per statement kind are sampled; the look-ahead that tells the kinds apart depends on optional words (OR REPLACE, TEMP, IF NOT EXISTS, ...).',
   [P], [('statement dispatch', 'src/parser.rs parse_statement'), ('CREATE', 'src/parser.rs parse_create_*'), ('ALTER', 'src/parser.rs parse_alter_*'), ('DROP', 'src/parser.rs parse_drop_*, parse_undrop_statement')],
   MC % 'grammar machine for DDL, derivations of the grammar'),
 p('C15', 'Scripting, transactions, access control and data movement keep every part',
   'Every procedural statement (DECLARE, SET, EXECUTE IMMEDIATE, BEGIN, IF, CASE, LOOP, WHILE, REPEAT, FOR, labels, BREAK/LEAVE/CONTINUE/ITERATE, RAISE, RETURN, CALL), transaction, GRANT/REVOKE, ASSERT, EXPORT and LOAD statement is returned as the statement kind it is, with conditions, branches, bodies, labels and options under their declared children, for every combination of optional parts.',
   ['inputs'], 'for every such statement of the language',
   TESTS + 'one or two texts per statement kind are sampled.',
   [P], [('scripting', 'src/parser.rs parse_begin_statement, parse_if_statement, parse_case_statement, parse_labeled_statement, parse_loop_statement, ...'), ('other', 'src/parser.rs parse_grant_statement, parse_export_data_statement, parse_load_statement, parse_execute_statement, ...')],
   MC % 'grammar machine for these statements, derivations of the grammar'),
 p('C16', 'Types, column definitions and constraints are structured as declared',
   'Wherever a type may stand (casts, typed constructors, DECLARE, columns, parameters, RETURNS, ALTER ... TYPE), it is returned with its name, type arguments, nested element and field types, and, in column definitions, default, collation, nullability, key, reference, enforcement and options each under its declared child, at any nesting depth. Table constraints are told apart from columns.',
   ['inputs'], 'for every type and column definition of the language, in every context',
   TESTS + 'type nesting, suffix combinations and contexts multiply; a few are sampled.',
   [P, L], [('types', 'src/parser.rs parse_type, parse_grouped_type_declaration_or_constraints'), ('constraints', 'src/parser.rs parse_constraint, parse_enforced'), ('single > in types', 'src/lexer.rs next_token')],
   MC % 'grammar machine for types, derivations of the grammar'),
 p('C17', 'Trees match the TypeScript types the package publishes',
   'Every node of every tree has a node type that the published TypeScript declarations name, only children that they declare for that node type, with the declared multiplicity (single node or list) and, where the declarations name the node types of a child, one of these types, every child they declare as required, and a token exactly where they declare one.',
   ['inputs', 'programs'], 'for every accepted script of the language and every node in its tree',
   'No test looks at the declarations at all: nothing ties src/types.rs to the trees the parser builds.',
   [Y, P, C], [('declarations', 'src/types.rs'), ('node types', 'src/cst.rs NodeType'), ('child keys', 'src/parser.rs push_node, push_node_vec')],
   'TLA+ conformance: TLC checks every recorded tree against the published declarations and the specification'),
 p('C18', 'A result depends on the text alone, whatever was called before',
   'tokenize and parse are functions of their argument: the same text gives the same result (value or error) at any point of any sequence of calls, including after calls that failed, and results returned earlier are not changed by later calls.',
   ['histories', 'inputs'], 'for every sequence of calls of parse and tokenize in one instance of the module',
   'Every test makes one call on one text.',
   [B, P, L], [('no state outlives a call', 'src/lib.rs parse, tokenize'), ('fresh lexer and parser per call', 'src/lexer.rs Lexer::new, src/parser.rs Parser::new')],
   'TLA+ session specification: TLC enumerates call histories (History) and judges the recorded ones (Session)'),
 p('C19', 'The JavaScript values have the documented shape; tokenize and parse agree',
   'tokenize returns an array of {line, column, literal}; parse returns an array of {token, node_type, children} nodes whose children are {Node} or {NodeVec} and whose last element is the end-of-input node; failures throw {line, column, message}; all are plain JSON-compatible objects with integer positions. A text that tokenize rejects is rejected by parse with the same error, and parse never reports a token that tokenize does not.',
   ['inputs'], 'for every text, accepted or not',
   'The tests compare trees inside Rust; what crosses the WebAssembly boundary, and errors in particular, is hardly sampled.',
   [B, C, T, 'src/error.rs'], [('serialization', 'src/lib.rs (Serializer::json_compatible), serde attributes in src/cst.rs, src/token.rs, src/error.rs'), ('end-of-input node', 'src/parser.rs parse_code')],
   MC % 'shape and agreement of the recorded values'),
 p('C20', 'Names, literals, aliases and reserved words are recognised everywhere',
   'In every position where a name, alias, literal, parameter or placeholder may stand, each form of it is recognised as such: reserved words are never taken for names or implicit aliases, non-reserved keywords may be names, backquoted and dashed names and dotted paths are kept whole, a keyword after a dot is a name, and strings, bytes, numbers, booleans, NULL, parameters and templates get their own node types.',
   ['inputs'], 'for every combination of position and word',
   TESTS + 'there are about 100 reserved words, as many keywords usable as names, and dozens of positions.',
   [P, T, K], [('names', 'src/parser.rs parse_identifier, push_trailing_alias'), ('word classes', 'src/token.rs is_identifier, is_reserved_keyword, is_string, is_numeric, is_parameter, is_template, is_boolean'), ('reserved words', 'src/constants.rs')],
   MC % 'grammar machine, word classes of the lexer specification'),
 p('C21', 'Parentheses in FROM: joins, subqueries and set operations are told apart',
   'A parenthesis in a FROM clause is returned as a parenthesised join, a subquery, a set operation or a piped query according to what it contains, at any depth of nesting and with anything (alias, join, set operator, PIVOT, sampling, ordering, pipe) following any of the closing parentheses.',
   ['inputs'], 'for every nesting of parentheses, joins, set operators and subqueries in FROM',
   TESTS + 'a handful have nested parentheses in FROM; the decision needs look-ahead over unboundedly many parentheses.',
   [P], [('decision and backtracking', 'src/parser.rs parse_table, parse_select_statement'), ('set operators after a parenthesis', 'src/parser.rs parse_set_operator')],
   MC % 'grammar machine for FROM items, derivations of the grammar'),
 p('C22', 'Pipe syntax: operators chain left to right with all their parts',
   'A piped query is returned as a left-nested chain, one node per `|>` in text order, each with its operator kind, arguments, aliases, grouping, join condition, set-operation modifiers and options under the declared children. This holds after any query and wherever a query may stand.',
   ['inputs'], 'for every sequence of pipe operators after any query',
   TESTS + 'each operator is sampled once or twice, chains hardly.',
   [P], [('chain', 'src/parser.rs parse_pipe_statement, parse_from_statement, parse_select_statement'), ('operators', 'src/parser.rs parse_*_pipe_operator')],
   MC % 'grammar machine for pipe operators, derivations of the grammar'),
]
NOTE = ('Explicit TLA+ specification of lexer, grammar machine, comment attachment and tree; TLC model-checks the invariants over derivations enumerated from the grammar '
        'and decides for every recorded library result whether the specification allows it. Exhaustive within the stated bounds, sampled beyond them; trusts TLC, rustc, wasm-bindgen and Node.js.')

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for q, _ in PROPS:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh',
             checks=[dict(property=q['id'], quick_cmd='python3 check.py ' + q['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + q['id'],
                          evidence_file='evidence/%s.json' % q['id'], technique=t, level='model_checking', level_note=NOTE) for q, t in PROPS],
             not_applicable=[], notes='No hooks: the checks observe the built package only.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
