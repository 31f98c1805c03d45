'use strict';
// Reference model server. Reads batches of JSON lines terminated by an empty line:
//   {m: mode, s: source, r: estree of the code under test | e: its error | p: its panic}
// and answers one JSON line per batch: {both, rej, mm:[{i,k,d}]}.
const NM = '/opt/veriftools/node/node_modules/';
const acorn = require(NM + 'acorn');
const AcornJsx = acorn.Parser.extend(require(NM + 'acorn-jsx')());
const AcornJsxNoNs = acorn.Parser.extend(require(NM + 'acorn-jsx')({ allowNamespaces: false }));
const ts = require('./ts.js');

function refParse(mode, src) {
  const parts = mode.split('+');
  if (ts.handles(parts)) return ts.parse(parts, src);
  const script = parts.includes('script');
  const o = { ecmaVersion: 2022, sourceType: script ? 'script' : 'module', allowAwaitOutsideFunction: !script, locations: true };
  const P = parts.includes('nojsx') ? acorn.Parser : parts.includes('jsxns') ? AcornJsx : AcornJsxNoNs;
  try { return { ast: P.parse(src, o) }; } catch (e) {
    if (e instanceof SyntaxError) return { error: e.message };
    throw e;
  }
}

// UTF-16 offsets -> byte offsets, UTF-16 columns -> rune columns, for non-ASCII sources
function mapper(src) {
  if (!/[^\x00-\x7f]/.test(src)) return null;
  const off = [0], run = [0];
  let b = 0, r = 0;
  for (let i = 0; i < src.length;) {
    const cp = src.codePointAt(i);
    const n = cp > 0xffff ? 2 : 1;
    if (n === 2) { off[i + 1] = b; run[i + 1] = r; }
    b += cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
    r++;
    i += n;
    off[i] = b; run[i] = r;
  }
  return { off, run };
}

const SKIP = new Set(['sourceType', 'range', 'type']);
const has = Object.prototype.hasOwnProperty;
function short(x) { let s; try { s = JSON.stringify(x, (k, v) => typeof v === 'bigint' ? v + 'n' : v); } catch (e) { s = String(x); } return s === undefined ? 'undefined' : s.slice(0, 90); }
function empty(x) { return x === null || x === undefined || x === false || x === '' || (Array.isArray(x) && x.length === 0); }

function number(raw) {
  raw = raw.replace(/_/g, '');
  return /^0[0-7]+$/.test(raw) ? Number('0o' + raw.slice(1)) : Number(raw);
}
const cooked = v => v === null ? null : v.toWellFormed();

class Cmp {
  constructor(map, text) { this.map = map; this.f = {}; this.text = text; this.lsps = /[\u2028\u2029]/.test(text); }
  add(kind, path, a, b) { if (!this.f[kind]) this.f[kind] = path + ': expected ' + short(a) + ' got ' + short(b); }
  pos(a, b, path) {
    let s = a.start, e = a.end, m = this.map;
    let l1 = a.loc.start, l2 = a.loc.end, c1 = l1.column, c2 = l2.column;
    if (m) {
      c1 = m.run[a.start] - m.run[a.start - l1.column]; c2 = m.run[a.end] - m.run[a.end - l2.column];
      s = m.off[s]; e = m.off[e];
    }
    if (b.start !== s || b.end !== e) this.add('pos', path + '(' + a.type + ')', [s, e], [b.start, b.end]);
    else if (b.loc && !this.lsps && (b.loc.start.line !== l1.line || b.loc.start.column !== c1 || b.loc.end.line !== l2.line || b.loc.end.column !== c2))
      this.add('pos', path + '(' + a.type + ').loc', [l1.line, c1, l2.line, c2], [b.loc.start.line, b.loc.start.column, b.loc.end.line, b.loc.end.column]);
    else if (!b.loc) this.add('pos', path + '.loc', 'loc', b.loc);
  }
  node(a, b, path) {
    if (!b || typeof b !== 'object' || b.type !== a.type) { this.add('struct', path + '.type', a.type, b && b.type || b); return; }
    if (typeof a.start === 'number' && a.loc) this.pos(a, b, path);
    if (a.type === 'Literal') return this.literal(a, b, path);
    if (a.type === 'TemplateElement') {
      if (!!a.tail !== !!b.tail) this.add('struct', path + '.tail', a.tail, b.tail);
      if (!b.value || a.value.raw !== b.value.raw.replace(/\r\n?/g, '\n') || (a.value.cooked === null ? !empty(b.value.cooked) : cooked(a.value.cooked) !== b.value.cooked)) this.add('value', path + '.value', a.value, b.value);
      return;
    }
    if (a.type === 'JSXText') {
      if (a.value !== b.value) this.add('value', path + '.value', a.value, b.value);
      return;
    }
    for (const k in a) {
      if (k === 'start' || k === 'end' || k === 'loc' || SKIP.has(k)) continue;
      // the test suite pins that a directive is reported with its decoded text
      if (k === 'directive') this.val(a.expression.value.toWellFormed(), b[k], path + '.' + k);
      else this.val(a[k], b[k], path + '.' + k);
    }
    for (const k in b) {
      if (k === 'start' || k === 'end' || k === 'loc' || SKIP.has(k) || has.call(a, k)) continue;
      if ((k === 'importKind' || k === 'exportKind') && b[k] === 'value') continue; // type-only marker of the TS dialect
      if (b.type === 'AwaitExpression' && (k === 'operator' && b[k] === 'await' || k === 'prefix')) continue;
      if (!empty(b[k])) this.add('struct', path + '.' + k, undefined, b[k]);
    }
  }
  literal(a, b, path) {
    // acorn accumulates digits of non-decimal literals in floating point; the engine's own conversion is exact.
    // lone surrogates are not representable in UTF-8 JSON
    if (typeof a.value === 'number') a.value = number(a.raw);
    if (typeof a.value === 'string') a.value = a.value.toWellFormed();
    if (b.regexp && !b.regex) b.regex = b.regexp;
    if (a.regex) {
      if (!b.regex || b.regex.pattern !== a.regex.pattern || b.regex.flags !== a.regex.flags) this.add('value', path + '.regex', a.regex, b.regex);
      return;
    }
    if (b.regex) { this.add('struct', path + '.regex', undefined, b.regex); return; }
    if (a.bigint !== undefined) {
      if (String(b.bigint) !== a.bigint) this.add('value', path + '.bigint', a.bigint, b.bigint);
    } else if (typeof a.value === 'number' && a.value === Infinity) {
      // not representable in JSON
    } else if (a.value !== b.value || typeof a.value !== typeof b.value) {
      if (typeof a.value !== typeof b.value || (a.value === null) !== (b.value === null)) this.add('struct', path + '.value', a.value, b.value);
      this.add('value', path + '.value', a.value, b.value);
    }
    if ((typeof a.value === 'string' || typeof a.value === 'number' || a.bigint) && b.raw !== a.raw) this.add('value', path + '.raw', a.raw, b.raw);
  }
  val(a, b, path) {
    if (a === null || a === undefined || a === false) { if (!(b === null || b === undefined || b === false)) this.add('struct', path, a, b); return; }
    if (typeof a !== 'object') { if (a !== b) this.add('struct', path, a, b); return; }
    if (Array.isArray(a)) {
      if (a.length === 0 && empty(b)) return;
      if (!Array.isArray(b) || a.length !== b.length) { this.add('struct', path, 'array of ' + a.length, b); return; }
      for (let i = 0; i < a.length; i++) this.val(a[i], b[i], path + '[' + i + ']');
      return;
    }
    if (b === null || b === undefined || typeof b !== 'object') { this.add('struct', path, a.type, b); return; }
    this.node(a, b, path);
  }
}

// A disagreement about whether a program is valid is only reported if a second, independent
// parser confirms the first one: {error}|{ok}
const babel = require(NM + '@babel/core/node_modules/@babel/parser');
function second(mode, src) {
  const parts = mode.split('+');
  if (ts.handles(parts)) return ts.second(parts, src);
  const script = parts.includes('script');
  try {
    babel.parse(src, { sourceType: script ? 'script' : 'module', allowAwaitOutsideFunction: !script, plugins: parts.includes('nojsx') ? [] : ['jsx'] });
    return true;
  } catch (e) { return false; }
}

// the test suite pins that the legacy escapes \8 and \9 are accepted in strict code
const esc89 = src => /\\[89]/.test(src);
const str = n => !!n && n.type === 'Literal';
function strNames(ast) {
  return ast.type === 'Program' && ast.body.some(s => str(s.exported) || (s.specifiers || []).some(x => str(x.imported) || str(x.local) || str(x.exported)));
}

function one(q, out, i) {
  const r = refParse(q.m, q.s);
  if ((r.error !== undefined) !== (q.e !== undefined) && q.p === undefined && second(q.m, q.s) !== (r.error === undefined)) {
    out.disputed++; // the two references disagree with each other
    return;
  }
  if (r.error === 'Invalid escape sequence (' + (r.error || '').split('(')[1] && esc89(q.s)) { out.disputed++; return; }
  if (r.error !== undefined) {
    if (q.p !== undefined) out.mm.push({ i, k: 'panic', d: 'panic ' + q.p });
    else if (q.e !== undefined) out.rej++;
    else if (/^Invalid regular expression: /.test(r.error) || !/regflags/.test(q.m) && /^(Invalid|Duplicate) regular expression flag/.test(r.error)) out.mm.push({ i, k: 'regex', d: r.error });
    else out.mm.push({ i, k: 'overaccept', d: 'accepted, reference: ' + r.error });
    return;
  }
  if (q.p !== undefined) { out.mm.push({ i, k: 'overreject', d: 'panic ' + q.p }); return; }
  if (q.e !== undefined && strNames(r.ast)) { out.disputed++; return; } // string-named imports and exports are not claimed to be supported
  if (q.e !== undefined) { out.mm.push({ i, k: 'overreject', d: q.e }); return; }
  const c = new Cmp(mapper(q.s), q.s);
  const a = r.ast, b = r.norm ? r.norm(q.r) : q.r;
  c.node(a, b, '');
  let bad = false;
  for (const k in c.f) { out.mm.push({ i, k, d: c.f[k] }); bad = true; }
  if (!bad) out.both++;
}
module.exports = { refParse, Cmp, one, serve };

function serve(one) {
  let pend = '', batch = [];
  process.stdin.setEncoding('utf8');
  process.stdin.on('data', d => {
    pend += d;
    let p = 0, n;
    while ((n = pend.indexOf('\n', p)) >= 0) {
      if (n === p) {
        const out = { both: 0, rej: 0, disputed: 0, mm: [] };
        batch.forEach((l, i) => one(JSON.parse(l), out, i));
        batch = [];
        process.stdout.write(JSON.stringify(out) + '\n');
      } else batch.push(pend.slice(p, n));
      p = n + 1;
    }
    pend = pend.slice(p);
  });
}
if (require.main === module) serve(one);
