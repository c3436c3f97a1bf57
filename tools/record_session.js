// Plays histories of calls and records what the library answered.
//   node record_session.js PKGDIR IN OUT FIRST
// IN: { texts: [...], histories: [[event, ...], ...] } on one line; an event is {e: "call"|"load"|"scribble", f, x, i}
// OUT: one JSON value per call or look, see spec/Session.tla; a line per history keeps the watchdog quiet.
const fs = require('fs'), path = require('path'), crypto = require('crypto');
const pkg = path.resolve(process.argv[2]);
console.error = () => {};
function load() { for (const k of Object.keys(require.cache)) if (k.startsWith(pkg)) delete require.cache[k];
                  return require(path.join(pkg, 'bq2cst.js')); }
// canonical text of a value: the order of an object's keys does not count
function canon(v) {
  if (Array.isArray(v)) return '[' + v.map(canon).join(',') + ']';
  if (v && typeof v === 'object') return '{' + Object.keys(v).sort().map(k => JSON.stringify(k) + ':' + canon(v[k])).join(',') + '}';
  return v === undefined ? 'undefined' : JSON.stringify(v);
}
const digest = (st, v) => st + ' ' + crypto.createHash('sha1').update(canon(v)).digest('hex').slice(0, 20);
function call(lib, f, s) {
  try { return ['ok', lib[f](s)]; }
  catch (e) { return e instanceof Error ? ['crash', String(e).slice(0, 80)] : ['err', e]; }
}
function scribble(v, seen) {   // overwrite everything reachable
  if (!v || typeof v !== 'object') return;
  if (Array.isArray(v)) { v.forEach(scribble); v.push('scribble'); if (v.length > 1) v[0] = null; return; }
  for (const k of Object.keys(v)) { scribble(v[k]); v[k] = typeof v[k] === 'number' ? -7 : typeof v[k] === 'string' ? '#' : v[k]; }
  v.scribble = true;
}
const input = JSON.parse(fs.readFileSync(process.argv[3], 'utf8')), out = fs.openSync(process.argv[4], 'w');
let h = 0;
for (const hist of input.histories) {
  h++;
  const libs = [load()], held = [], lines = [];
  for (const ev of hist) {
    if (ev.e === 'load') libs.push(load());
    else if (ev.e === 'scribble') { const o = held[held.length - 1]; scribble(o.v); o.s = true; }
    else {
      const [st, v] = call(libs[ev.i - 1], ev.f, input.texts[ev.x - 1]), a = digest(st, v);
      held.push({ v, st, s: false });
      lines.push({ e: 'call', h, i: ev.i, f: ev.f, x: ev.x, a });
      if (st === 'crash') libs[ev.i - 1] = load();      // a trapped instance is not used again
    }
  }
  // objects received early, looked at again at the end (a long history: every 50th)
  const step = held.length > 60 ? 50 : 1;
  for (let j = 0; j < held.length; j += step) lines.push({ e: 'look', h, j: j + 1, a: digest(held[j].st, held[j].v), s: held[j].s });
  fs.writeSync(out, lines.map(x => JSON.stringify(x)).join('\n') + '\n');
}
