'use strict';
// TypeScript reference: babel's typescript grammar in ESTree form, arbitrated by the TypeScript compiler.
const NM = '/opt/veriftools/node/node_modules/';
const babel = require(NM + '@babel/core/node_modules/@babel/parser');
let tsc;

function clean(n) { // plain tree without positions, empty fields and parentheses markers
  if (Array.isArray(n)) return n.map(clean);
  if (!n || typeof n !== 'object' || n instanceof RegExp || typeof n === 'bigint') return n;
  const o = {};
  for (const k of Object.keys(n)) {
    if (k === 'start' || k === 'end' || k === 'loc' || k === 'range' || k === 'extra' || k === 'errors' || k === 'comments' || k === 'tokens' || /Comments$/.test(k)) continue;
    const v = clean(n[k]);
    if (v === undefined || v === null || v === false || Array.isArray(v) && v.length === 0) continue;
    o[k] = v;
  }
  return shape(o);
}

// names that both sides give differently to the same thing
const name = n => n && n.type === 'Identifier' ? n.name : n;
function sig(o) {
  if (o.value) { const v = o.value; delete o.value; for (const k of ['params', 'returnType', 'typeParameters']) if (v[k]) o[k] = v[k]; }
  if (o.parameters) { o.params = o.parameters; delete o.parameters; }
  if (o.typeAnnotation) { o.returnType = o.typeAnnotation; delete o.typeAnnotation; }
}
function shape(o) {
  for (const k in o) if (o[k] && o[k].type === 'TSTypeAnnotation') o[k] = o[k].typeAnnotation;
  if (o.exportKind === 'value' || o.type !== 'ExportNamedDeclaration' && o.type !== 'ExportAllDeclaration' || o.declaration) delete o.exportKind;
  if (o.importKind === 'value') delete o.importKind;
  switch (o.type) {
    case 'TSModuleBlock': o.type = 'BlockStatement'; break;
    case 'TSExpressionWithTypeArguments': o.type = 'TSTypeReference'; o.typeName = o.expression; delete o.expression; break;
    case 'Property': if (o.shorthand && !o.value) o.value = o.key; break;
    case 'ImportDeclaration': if (o.importKind) for (const x of o.specifiers || []) delete x.importKind; break;
    case 'TSImportEqualsDeclaration': delete o.importKind; break;
    case 'PropertyDefinition': case 'MethodDefinition': case 'TSPropertySignature': case 'TSMethodSignature':
    case 'TSAbstractMethodDefinition': case 'TSAbstractPropertyDefinition':
      if (o.key) delete o.key.optional;
      if (o.value && !o.value.body && o.value.type === 'FunctionExpression') delete o.value.id;
      if (o.type === 'TSMethodSignature') sig(o);
      if (o.type === 'TSPropertySignature') delete o.kind;
      break;
    case 'TSParenthesizedType': return o.typeAnnotation;
    case 'TSUnionType': case 'TSIntersectionType':
      if (o.types && o.types.length === 1) return o.types[0];
      break;
    case 'TSModuleDeclaration': delete o.kind; break;
    case 'TSTypeParameter': o.name = name(o.name); break;
    case 'TSTypeReference': if (o.typeName && o.typeName.type === 'TSTypeReference') o.typeName = o.typeName.typeName; break;
    case 'TSTypeQuery':
      if (o.exprName && o.exprName.type === 'TSTypeReference') o.exprName = o.exprName.typeName;
      if (o.exprName && o.exprName.type === 'TSThisType') o.exprName = { type: 'Identifier', name: 'this' };
      break;
    case 'TSInferType': if (o.typeParameter && o.typeParameter.type === 'TSTypeParameter' && Object.keys(o.typeParameter).length === 2) o.typeParameter = { type: 'Identifier', name: o.typeParameter.name }; break;
    case 'TSDeclareFunction': delete o.declare; break;
    case 'TSFunctionType': case 'TSConstructorType': case 'TSCallSignatureDeclaration': case 'TSConstructSignatureDeclaration': sig(o); break;
    case 'ClassProperty': case 'ClassPrivateProperty': o.type = 'PropertyDefinition'; break;
  }
  return o;
}

function parse(parts, src) {
  const plugins = [['estree', { classFeatures: true }], ['typescript', { dts: parts.includes('dts') }], 'decorators-legacy'];
  if (parts.includes('tsx')) plugins.push('jsx');
  try {
    const f = babel.parse(src, { sourceType: 'module', allowAwaitOutsideFunction: true, plugins });
    return { ast: clean(f.program), typed: true, norm: clean };
  } catch (e) {
    if (e instanceof SyntaxError) return { error: e.message, typed: true };
    throw e;
  }
}
function second(parts, src) {
  tsc = tsc || require(NM + 'typescript');
  const f = tsc.createSourceFile(parts.includes('dts') ? 'a.d.ts' : parts.includes('tsx') ? 'a.tsx' : 'a.ts', src, tsc.ScriptTarget.ES2022, false);
  return f.parseDiagnostics.length === 0;
}
module.exports = { handles(parts) { return parts.includes('ts') || parts.includes('tsx') || parts.includes('dts'); }, parse, second };
