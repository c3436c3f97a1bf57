// The node declarations published with the package (bq2cst.d.ts) as JSON:
//   { NodeType: { keys: { child: "Node" | "NodeVec" | "any" }, of: { child: [node types it may have, where they are named] },
//                 req: [children always there], token: "Token" | "null" | "any" } }
// usage: node decl.js FILE.d.ts OUT.json
const fs = require('fs');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const sf = ts.createSourceFile('x.d.ts', fs.readFileSync(process.argv[2], 'utf8'), ts.ScriptTarget.Latest, true);
const defs = {};
const literal = t => { // members of a type literal / interface
  const r = { keys: {}, of: {}, req: [], token: 'any', name: null, bases: [] };
  for (const m of t.members) {
    const n = m.name && m.name.getText();
    if (n === 'node_type' && ts.isLiteralTypeNode(m.type)) r.name = m.type.literal.text;
    if (n === 'token') r.token = m.type.getText();
    if (n === 'children' && ts.isIndexedAccessTypeNode(m.type)) r.childrenOf = m.type.objectType.getText();
    if (n === 'children' && m.type.members) for (const k of m.type.members) {
      const c = r.keys[k.name.getText()] = childKind(k.type);
      r.of[k.name.getText()] = namedTypes(k.type);
      if (!k.questionToken && c !== 'absent' && c !== 'any') r.req.push(k.name.getText());
    }
  }
  return r;
};
function childKind(t) {
  const s = t.getText();
  if (s === 'undefined') return 'absent';
  if (s === 'NodeChild' || /^\{\s*Node\s*:/.test(s)) return 'Node';
  if (s === 'NodeVecChild' || /^\{\s*NodeVec\s*:/.test(s)) return 'NodeVec';
  return 'any';
}
// the names in { Node: A | B }, { NodeVec: (A | B)[] }, { NodeVec: A[] }
function namedTypes(t) {
  if (!ts.isTypeLiteralNode(t) || t.members.length !== 1) return [];
  let e = t.members[0].type;
  const strip = x => { while (ts.isParenthesizedTypeNode(x)) x = x.type; return x; };
  e = strip(e);
  if (ts.isArrayTypeNode(e)) e = strip(e.elementType);
  const names = (ts.isUnionTypeNode(e) ? [...e.types] : [e]).map(strip);
  return names.every(x => ts.isTypeReferenceNode(x)) ? names.map(x => x.typeName.getText()) : [];
}
function parts(t) {
  if (ts.isIntersectionTypeNode(t)) return t.types.flatMap(parts);
  if (ts.isParenthesizedTypeNode(t)) return parts(t.type);
  if (ts.isTypeLiteralNode(t)) return [literal(t)];
  if (ts.isTypeReferenceNode(t)) return [{ ref: t.typeName.getText() }];
  return [];
}
sf.forEachChild(d => {
  if (ts.isTypeAliasDeclaration(d)) defs[d.name.text] = parts(d.type);
  if (ts.isInterfaceDeclaration(d)) defs[d.name.text] = [literal(d)];
});
function flat(name, seen = []) {
  if (seen.includes(name)) return [];
  return (defs[name] || []).flatMap(p => p.ref ? flat(p.ref, [...seen, name]) : [p]);
}
// the union the package exports as UnknownNode
let union = null;
sf.forEachChild(d => { if (ts.isTypeAliasDeclaration(d) && d.name.text === 'UnknownNode' && ts.isUnionTypeNode(d.type))
  union = new Set(d.type.types.map(t => t.getText())); });
const nodeName = name => flat(name).map(p => p.name).filter(x => x).pop();
const out = {};
for (const name of Object.keys(defs)) {
  if (union && !union.has(name)) continue;
  const ps = flat(name), nm = nodeName(name);
  if (!nm) continue;
  const keys = {}, of = {}, req = new Set(); let token = 'any';
  const take = p => { Object.assign(keys, p.keys); Object.assign(of, p.of); for (const k of p.req) req.add(k); };
  for (const p of ps) if (p.childrenOf) flat(p.childrenOf).forEach(take);
  for (const p of ps) { take(p); if (p.token === 'Token') token = 'Token'; else if (p.token === 'null' ) token = 'null'; }
  for (const k of Object.keys(of)) { // only unions of node types of the package
    const ns = of[k].map(x => union && union.has(x) ? nodeName(x) : undefined);
    if (ns.length && ns.every(x => x)) of[k] = ns; else delete of[k];
  }
  out[nm] = { keys, of, req: [...req].filter(k => keys[k] !== 'absent'), token };
}
fs.writeFileSync(process.argv[3], JSON.stringify(out));
console.log(Object.keys(out).length + ' node types');
