'use strict';
// Scope reference: {m, s, e: error | p: panic | r: [[start, name, declStart | -1, kinds]]}
// Each identifier reference of the program (as eslint-scope sees it) must have been resolved by
// the code under test to one of the declarations of the variable, and with that declaration's kind.
const NM = '/opt/veriftools/node/node_modules/';
const escope = require(NM + 'eslint-scope');
const { refParse, serve } = require('./ref.js');

function kindOf(d) {
  switch (d.type) {
    case 'Variable': return d.parent.kind;
    case 'Parameter': return 'param';
    case 'FunctionName': return 'function';
    case 'ClassName': return 'class';
    case 'CatchClause': return 'catch';
    case 'ImportBinding': return 'import';
  }
  return d.type;
}

function addRange(n) {
  if (!n || typeof n !== 'object') return;
  if (Array.isArray(n)) { n.forEach(addRange); return; }
  if (typeof n.type === 'string') n.range = [n.start, n.end];
  for (const k in n) if (k !== 'range' && k !== 'loc') addRange(n[k]);
}

function one(q, out, i) {
  if (q.p !== undefined) { out.mm.push({ i, k: 'scope', d: 'panic ' + q.p }); return; }
  if (q.e !== undefined) { out.rej++; return; }
  const r = refParse(q.m, q.s);
  if (r.error !== undefined) { out.disputed++; return; }
  addRange(r.ast);
  const script = q.m.split('+').includes('script');
  const sm = escope.analyze(r.ast, { ecmaVersion: 2022, sourceType: script ? 'script' : 'module', childVisitorKeys: null, fallback: 'iteration' });
  const at = new Map();
  for (const [s, n, d, k] of q.r) { const l = at.get(s); if (l) l.push([n, d, k]); else at.set(s, [[n, d, k]]); }
  // Annex B: functions in blocks of sloppy code may also bind in the function; not modelled
  const annexB = new Set();
  for (const sc of sm.scopes) if ((sc.type === 'block' || sc.type === 'switch') && !sc.isStrict)
    for (const v of sc.variables) if (v.defs.some(d => d.type === 'FunctionName')) annexB.add(v.name);
  let n = 0;
  const bad = d => { out.mm.push({ i, k: 'scope', d }); };
  for (const sc of sm.scopes) for (const ref of sc.references) {
    const id = ref.identifier;
    if (id.type !== 'Identifier') continue;
    const got = at.get(id.start);
    const where = id.name + '@' + id.start;
    if (!got) { bad(where + ': the walk does not reach the reference'); return; }
    let v = ref.resolved;
    if (!v || v.defs.length === 0) v = null; // undeclared, or the implicit `arguments`
    const want = v ? v.defs.map(d => [d.name.range[0], kindOf(d)]) : [];
    for (const [name, d, k] of got) {
      if (name !== id.name) { bad(where + ': named ' + name); return; }
      n++;
      if (!v) {
        if (d !== -1 && !annexB.has(name)) { bad(where + ': expected no declaration, got the one at ' + d); return; }
        continue;
      }
      const w = want.find(w => w[0] === d);
      if (!w) { if (annexB.has(name)) continue; bad(where + ': expected a declaration at ' + want.map(w => w.join(':')).join(' or ') + ', got ' + d); return; }
      if (!k.includes(w[1])) { bad(where + ': the declaration at ' + d + ' is a ' + w[1] + ', reported as ' + k); return; }
    }
  }
  out.both++;
  out.refs = (out.refs || 0) + n;
}
serve(one);
