// Calls the library (built from /repo) and records what it returned.
//   node record.js PKGDIR IN OUT [FIRST [HANG,HANG,...]]
// IN: one JSON value per line, a text or {rel, xs: [texts]} (moved: also by: [line feeds, spaces]).  Entries before line FIRST (0-based) are skipped;
// the listed entries did not return earlier and are recorded as such without calling the library.
const fs = require('fs'), path = require('path');
const pkg = path.resolve(process.argv[2]);
let lib;
function load() { for (const k of Object.keys(require.cache)) if (k.startsWith(pkg)) delete require.cache[k];
                  lib = require(path.join(pkg, 'bq2cst.js')); }
console.error = () => {};   // the library reports panics there
const EOFPOS = 2147483647;
const pos = n => n === 4294967295 ? EOFPOS : (Number.isInteger(n) && n >= 0 && n < EOFPOS ? n : -1);
function sym(ch) { const c = ch.codePointAt(0);
  if ((c >= 32 && c < 127) || c === 10 || c === 9 || c === 13) return ch;
  return '<U+' + c.toString(16).toUpperCase().padStart(4, '0') + '>'; }
const enc = s => Array.from(String(s), sym).join('');
function call(f, s) {
  try { return ['ok', f(s)]; }
  catch (e) {
    if (e instanceof Error) { load(); return ['crash', String(e).slice(0, 60)]; }
    return ['err', e];
  }
}
// the shape of a value, one level deep
function kind(v) {
  if (v === null) return 'null';
  if (Array.isArray(v)) return Object.getPrototypeOf(v) === Array.prototype ? 'array' : 'odd-array';
  if (typeof v === 'number') return Number.isInteger(v) && v >= 1 && v <= 4294967295 ? 'int' : 'number';
  if (typeof v === 'object') return Object.getPrototypeOf(v) === Object.prototype ? 'object' : 'odd-object';
  return typeof v;
}
const shape = (what, v) => what + ' ' + (kind(v) === 'object'
  ? '{' + Object.keys(v).sort().map(k => k + ':' + kind(v[k])).join(',') + '}' : kind(v));
function node(n, sh) {
  sh.add(shape('node', n));
  if (n === null || typeof n !== 'object') return { t: 'odd', k: [], c: {} };
  if (n.token) sh.add(shape('token', n.token));
  const c = {}, ch = n.children || {};
  for (const k of Object.keys(ch)) {
    const v = ch[k];
    sh.add(shape('child', v));
    if (v && Array.isArray(v.NodeVec)) c[k] = { l: v.NodeVec.map(x => node(x, sh)) };
    else c[k] = node(v ? v.Node : null, sh);
  }
  return { t: String(n.node_type), k: n.token ? [pos(n.token.line), pos(n.token.column), enc(n.token.literal)] : [], c };
}
// JSON readers limit nesting: deep trees are written as a list of nodes that name their children by index (from 1)
function deep(n, d) { d = typeof d === 'number' && d < 1000 ? d : 1;
  if (d > 100) return true;
  for (const k of Object.keys(n.c)) { const v = n.c[k]; if (v.l ? v.l.some(x => deep(x, d + 4)) : deep(v, d + 2)) return true; }
  return false; }
function flat(n, ns) {
  const c = {};
  for (const k of Object.keys(n.c)) c[k] = n.c[k].l ? { l: n.c[k].l.map(x => flat(x, ns)) } : { i: flat(n.c[k], ns) };
  return ns.push({ t: n.t, k: n.k, c });
}
function record(s) {
  const sh = new Set(), r = { src: Array.from(s, sym), te: [0, 0], tk: [], pe: [0, 0], tree: [], tm: '', pm: '', sh: [] };
  const [ts, t] = call(x => lib.tokenize(x), s), [ps, p] = call(x => lib.parse(x), s);
  r.ts = ts; r.ps = ps;
  const err = e => { sh.add(shape('error', e)); return e ? [pos(e.line), pos(e.column)] : [-1, -1]; };
  if (ts === 'err') { r.te = err(t); r.tm = enc(t && t.message); }
  if (ps === 'err') { r.pe = err(p); r.pm = enc(p && p.message); }
  if (ts === 'ok') {
    sh.add(kind(t));
    if (Array.isArray(t)) r.tk = t.map(x => { sh.add(shape('token', x)); return [pos(x && x.line), pos(x && x.column), enc(x && x.literal)]; });
  }
  if (ps === 'ok') {
    sh.add(kind(p));
    if (Array.isArray(p)) {
      r.tree = p.map(x => node(x, sh));
      if (r.tree.some(x => deep(x, 1))) { const ns = []; r.roots = r.tree.map(n => flat(n, ns)); r.nodes = ns; r.tree = []; }
    }
  }
  r.sh = [...sh];
  return r;
}
// only whether the library answers
function called(s) { const [ts] = call(x => lib.tokenize(x), s), [ps] = call(x => lib.parse(x), s);
  return { src: [], ts, ps, te: [0, 0], tk: [], pe: [0, 0], tree: [], tm: '', pm: '', sh: [] }; }
function hung(s) { return { src: Array.from(s, sym), ts: 'hang', ps: 'hang', te: [0, 0], tk: [], pe: [0, 0], tree: [], tm: '', pm: '', sh: [] }; }
module.exports = { record, call, load, enc, sym, kind, shape, lib: () => lib };
if (require.main === module) {
  load();
  const lines = fs.readFileSync(process.argv[3], 'utf8').split('\n').filter(x => x);
  const first = Number(process.argv[5] || 0), hang = new Set((process.argv[6] || '').split(',').filter(x => x).map(Number));
  const out = fs.openSync(process.argv[4], first ? 'a' : 'w');
  for (let i = first; i < lines.length; i++) {
    const x = JSON.parse(lines[i]), e = typeof x === 'string' ? { rel: 'one', xs: [x] } : x;
    const rs = e.xs.map(hang.has(i) ? hung : e.rel === 'call' ? called : record), by = e.by || [0, 0];
    if (e.rel === 'moved') { const s = '\n'.repeat(by[0]) + ' '.repeat(by[1]) + e.xs[0]; rs.push({ ...(hang.has(i) ? hung : record)(s), src: [] }); }
    fs.writeSync(out, JSON.stringify({ rel: e.rel, by, rs }) + '\n');
  }
}
