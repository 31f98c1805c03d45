'use strict';
// Reference for C16: evaluates an expression with node's own engine.
// request {s: expression, env: index, v: canonical value of the code under test | p: panic, x: environment altered}
// null and undefined are one value for the code under test, so an expression is only
// judged when replacing one by the other everywhere does not change the outcome.
const rl = require('readline').createInterface({ input: process.stdin, terminal: false });
const b = new DataView(new ArrayBuffer(8));
function canon(v) {
  if (v === null || v === undefined) return 'u';
  switch (typeof v) {
    case 'boolean': return 'b' + v;
    case 'number': if (v !== v) return 'nNaN'; b.setFloat64(0, v); return 'n' + b.getBigUint64(0).toString(16);
    case 'string': return 's' + JSON.stringify(v);
    case 'function': return 'f';
  }
  if (Array.isArray(v)) { const r = []; for (let i = 0; i < v.length; i++) r.push(canon(v[i])); return '[' + r.join(',') + ']'; }
  return '{' + Object.keys(v).sort().map(k => JSON.stringify(k) + ':' + canon(v[k])).join(',') + '}';
}
function env(idx, N) {
  const o = idx === 0
    ? { key: 1, a: { b: 'x', key: [7] }, '1': 'one', f: false, nil: N }
    : { key: 'k2', a: { b: 0, key: [] }, '1': true, f: '', nil: N };
  const arr = idx === 0 ? [1, '2', NaN, N, o, true] : ['key', 0, [2], N];
  return idx === 0
    ? { n: 3, m: -2.5, z: 0, s: 'key', e: '', t: true, f: false, u: N, o, arr, ea: [], i: 2 }
    : { n: NaN, m: 1e21, z: -0, s: '1', e: ' 12\n', t: false, f: true, u: N, o, arr, ea: [5], i: -1 };
}
const E = [0, 1].map(i => [env(i, undefined), env(i, null), env(i, undefined)]);
const names = Object.keys(E[0][0]);
const vals = E.map(x => x.map(e => names.map(n => e[n])));
function run(src, idx) {
  const vs = [src, src.replace(/\bundefined\b/g, 'null'), src.replace(/\bnull\b/g, 'undefined')];
  let r;
  for (let i = 0; i < 3; i++) {
    let x;
    if (i > 0 && i === 2 && vs[2] === src) { x = r; continue; }
    try { x = canon(new Function(...names, 'return (' + vs[i] + '\n)')(...vals[idx][i])); } catch (e) { return null; }
    if (i && x !== r) return null;
    r = x;
  }
  return r;
}
// ** is implementation-approximated: the last bits may differ
function near(q, w) {
  if (!q.s.includes('**') || w[0] !== 'n' || q.v[0] !== 'n' || w === 'nNaN' || q.v === 'nNaN') return false;
  const f = x => { b.setBigUint64(0, BigInt('0x' + x.slice(1))); return b.getFloat64(0); };
  const x = f(w), y = f(q.v);
  return Math.abs(x - y) <= 1e-12 * Math.abs(x);
}
let batch = [];
rl.on('line', l => {
  if (l !== '') { batch.push(JSON.parse(l)); return; }
  let both = 0, rej = 0; const mm = [];
  batch.forEach((q, i) => {
    const w = run(q.s, q.env);
    if (w === null) { rej++; if (q.p) mm.push({ i, k: 'value', d: 'panic ' + q.p }); return; }
    if (q.p) mm.push({ i, k: 'value', d: 'panic ' + q.p });
    else if (q.x) mm.push({ i, k: 'value', d: q.x });
    else if (q.v !== w && !near(q, w)) mm.push({ i, k: 'value', d: 'expected ' + w + ' got ' + q.v });
    else both++;
  });
  batch = [];
  process.stdout.write(JSON.stringify({ both, rej, mm }) + '\n');
});
