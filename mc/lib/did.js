'use strict';
// The published interface (a .did file): parsed, compared with what the
// canister exports and answers, and used to write requests in the different
// encodings Candid allows for them.
const fs = require('fs');
const C = require('./candid.js');

const PRIMS = new Set(['null', 'bool', 'nat', 'int', 'nat8', 'nat16', 'nat32', 'nat64', 'int8', 'int16', 'int32', 'int64', 'float32', 'float64', 'text', 'reserved', 'empty', 'principal']);
function parse(text) {
  const src = text.replace(/\/\*[\s\S]*?\*\//g, ' ').replace(/\/\/[^\n]*/g, ' ');
  const tok = src.match(/"(?:[^"\\]|\\.)*"|->|[A-Za-z_][A-Za-z0-9_]*|\d+|[{}():;,=]/g) || [];
  let i = 0;
  const peek = () => tok[i], next = () => tok[i++];
  const eat = t => { if (tok[i] !== t) throw new Error(`did: ${t} expected at ${tok.slice(i, i + 8).join(' ')}`); i++; };
  const label = t => (t[0] === '"' ? JSON.parse(t) : t);
  const types = {}, out = { types, methods: {}, init: [] };
  function type() {
    const t = next();
    if (t === 'blob') return { vec: 'nat8' };
    if (t === 'opt') return { opt: type() };
    if (t === 'vec') return { vec: type() };
    if (t === 'record' || t === 'variant') {
      const fields = {};
      let n = 0;
      eat('{');
      while (peek() !== '}') {
        if (tok[i + 1] === ':') { const k = label(next()); eat(':'); fields[k] = type(); if (/^\d+$/.test(k)) n = Number(k) + 1; }
        else if (t === 'variant') fields[label(next())] = 'null';
        else fields[n++] = type();
        if (peek() === ';') next();
      }
      eat('}');
      return { [t]: fields };
    }
    if (t === 'func') return { func: func() };
    if (PRIMS.has(t)) return t;
    if (t === 'service') throw new Error('did: service type');
    return { ref: label(t) };
  }
  function args() {
    const r = [];
    eat('(');
    while (peek() !== ')') {
      if (tok[i + 1] === ':') { next(); next(); }
      r.push(type());
      if (peek() === ',') next();
    }
    eat(')');
    return r;
  }
  function func() {
    const f = { args: args() };
    eat('->');
    f.res = args();
    f.modes = [];
    while (['query', 'composite_query', 'oneway'].includes(peek())) f.modes.push(next());
    return f;
  }
  while (i < tok.length) {
    const t = next();
    if (t === 'type') { const k = label(next()); eat('='); types[k] = type(); if (peek() === ';') next(); continue; }
    if (t !== 'service') throw new Error('did: ' + t);
    if (peek() !== ':') next();
    eat(':');
    if (peek() === '(') { out.init = args(); eat('->'); }
    eat('{');
    while (peek() !== '}') { const k = label(next()); eat(':'); out.methods[k] = func(); if (peek() === ';') next(); }
    eat('}');
    if (peek() === ';') next();
  }
  return out;
}
const load = file => parse(fs.readFileSync(file, 'utf8'));
const resolve = (did, T) => { while (T && T.ref !== undefined) { if (!did.types[T.ref]) throw new Error('did: no type ' + T.ref); T = did.types[T.ref]; } return T; };

// ---- is what was sent of the published type? -------------------------------------
// table: the message's types; answers what is wrong
function conforms(did, H, want) {
  const bad = [], seen = new Set();
  const name = Object.fromEntries(Object.entries(C.PRIM).map(([k, v]) => [v, k]));
  const ids = new Map();
  const id = T => { if (!ids.has(T)) ids.set(T, ids.size); return ids.get(T); };
  const key = k => (/^\d+$/.test(k) ? Number(k) : C.fieldHash(k));
  const say = t => (t < 0 ? name[t] : { [-18]: 'opt', [-19]: 'vec', [-20]: 'record', [-21]: 'variant', [-22]: 'func' }[H.table[t][0]]);
  const go = (t, T0, at) => {
    const T = resolve(did, T0);
    if (t === C.PRIM.empty || T === 'reserved') return;
    if (typeof T === 'string') {
      if (t >= 0 || !(name[t] === T || (T === 'int' && name[t] === 'nat'))) bad.push(`${at} is ${say(t)}, published as ${T}`);
      return;
    }
    const k = t + '/' + id(T);
    if (t >= 0) { if (seen.has(k)) return; seen.add(k); }
    const c = t < 0 ? 0 : H.table[t][0], x = t < 0 ? null : H.table[t][1];
    if (T.opt !== undefined) {
      if (t === C.PRIM.null) return;
      if (c === -18) go(x, T.opt, at); else go(t, T.opt, at);
      return;
    }
    if (T.vec !== undefined) { if (c !== -19) bad.push(`${at} is ${say(t)}, published as vec`); else go(x, T.vec, at + '[]'); return; }
    if (T.record) {
      if (c !== -20) { bad.push(`${at} is ${say(t)}, published as record`); return; }
      const has = new Map(x.map(([n, ty]) => [key(n), ty]));
      for (const [n, U] of Object.entries(T.record)) if (has.has(key(n))) go(has.get(key(n)), U, `${at}.${n}`); else bad.push(`${at}.${n} is missing`);
      return;
    }
    if (T.variant) {
      if (c !== -21) { bad.push(`${at} is ${say(t)}, published as variant`); return; }
      const ok = new Map(Object.entries(T.variant).map(([n, U]) => [key(n), U]));
      for (const [n, ty] of x) if (ok.has(key(n))) go(ty, ok.get(key(n)), `${at}.${n}`); else bad.push(`${at} can be ${n}, which is not published`);
      return;
    }
    if (T.func) {
      if (c !== -22) { bad.push(`${at} is ${say(t)}, published as func`); return; }
      const m = x.modes.map(y => ({ 1: 'query', 2: 'oneway', 3: 'composite_query' }[y]));
      if (m.join() !== T.func.modes.join() || x.res.length < T.func.res.length) bad.push(`${at} is another function`);
    }
  };
  if (H.args.length < want.length) bad.push(`${H.args.length} results, published are ${want.length}`);
  else want.forEach((T, i) => go(H.args[i], T, want.length > 1 ? `result ${i}` : 'the result'));
  return bad;
}

// ---- the encodings of a value -------------------------------------------------------
// did type -> type for the codec
function plainType(did, T0, depth = 0) {
  const T = resolve(did, T0);
  if (depth > 12) throw new Error('did: recursive argument');
  if (typeof T === 'string') return T;
  const d = depth + 1;
  if (T.opt !== undefined) return { opt: plainType(did, T.opt, d) };
  if (T.vec !== undefined) return resolve(did, T.vec) === 'nat8' ? 'blob' : { vec: plainType(did, T.vec, d) };
  const k = T.record ? 'record' : 'variant';
  return { [k]: Object.fromEntries(Object.entries(T[k]).map(([n, U]) => [n, plainType(did, U, d)])) };
}
const EXTRA = { zz_unknown: 'text', 4000000001: { opt: { vec: 'nat' } } };
// vs: all values found at this place; answers [type, value -> value]
function rewrite(T, vs, mode) {
  const m = k => mode.includes(k);
  const nul = v => v === null || v === undefined;
  if (typeof T === 'string') return [T, v => v];
  if (T.opt !== undefined) {
    if (vs.every(nul)) {
      if (m('plain')) return ['null', () => null];
      if (m('reserved')) return ['reserved', () => null];
      const [U] = m('thin') ? ['empty'] : rewrite(T.opt, [], mode);
      return [{ opt: U }, () => null];
    }
    const [U, f] = rewrite(T.opt, vs.filter(v => !nul(v)), mode);
    if (m('plain') && !vs.some(nul) && T.opt.opt === undefined) return [U, f];
    return [{ opt: U }, v => (nul(v) ? null : f(v))];
  }
  if (T.vec !== undefined) {
    const all = vs.flat();
    if (!all.length && m('thin')) return [{ vec: 'empty' }, () => []];
    const [U, f] = rewrite(T.vec, all, mode);
    return [{ vec: U }, v => v.map(f)];
  }
  if (T.record) {
    // records with positions for names are left as they are: the repository's
    // Candid library takes them for tuples of exactly that length
    const more = m('extra') && !Object.keys(T.record).some(k => /^\d+$/.test(k));
    const R = {}, F = [];
    for (const [k, U] of Object.entries(T.record)) {
      const xs = vs.map(v => v[k]);
      if (m('bare') && U.opt !== undefined && xs.length && xs.every(nul)) continue;
      const [V, f] = rewrite(U, xs, mode);
      R[k] = V;
      F.push([k, f]);
    }
    if (more) Object.assign(R, EXTRA);
    return [{ record: R }, v => { const o = {}; for (const [k, f] of F) o[k] = f(v[k]); if (more) { o.zz_unknown = 'ignore me'; o[4000000001] = [1n, 1n << 70n]; } return o; }];
  }
  const tags = m('thin') && vs.length ? [...new Set(vs.map(v => Object.keys(v)[0]))] : Object.keys(T.variant);
  const R = {}, F = {};
  for (const k of tags) { const xs = vs.filter(v => k in v).map(v => v[k]); [R[k], F[k]] = rewrite(T.variant[k], xs, mode); }
  return [{ variant: R }, v => { const k = Object.keys(v)[0]; return { [k]: F[k](v[k]) }; }];
}
const MODES = {
  published: [], bare: ['bare'], plain: ['plain'], reserved: ['reserved'], extra: ['extra'], thin: ['thin'],
  'bare+extra': ['bare', 'extra'], 'plain+thin+extra': ['plain', 'thin', 'extra'], 'bare+plain+thin': ['bare', 'plain', 'thin'],
};
function encode(types, values, mode) {
  const ts = [], vs = [];
  types.forEach((T, i) => { const [U, f] = rewrite(T, [values[i]], MODES[mode]); ts.push(U); vs.push(f(values[i])); });
  if (MODES[mode].includes('extra')) { ts.push('text', { opt: 'nat' }); vs.push('more', 5n); }
  return C.encode(ts, vs);
}
// encodings that are not of the published type
function wrong(types, values) {
  const good = C.encode(types, values), out = [];
  out.push(['empty', new Uint8Array(0)], ['no magic', good.slice(1)], ['cut', good.slice(0, good.length - 1)], ['one more byte', Uint8Array.from([...good, 0])]);
  if (types.length && !types.every(T => T.opt !== undefined)) out.push(['no argument', C.encode([], [])]);
  types.forEach((T, i) => {
    if (!T.record) return;
    for (const [k, U] of Object.entries(T.record)) {
      if (U.opt !== undefined) continue;
      const { [k]: _, ...rest } = T.record;
      const put = (R, v) => C.encode(types.map((x, j) => (j === i ? { record: R } : x)), values.map((x, j) => (j === i ? v : x)));
      out.push([`without ${k}`, put(rest, values[i])]);
      out.push([`${k} of another type`, put({ ...rest, [k]: U === 'bool' ? 'text' : 'bool' }, { ...values[i], [k]: U === 'bool' ? '' : true })]);
      if (U === 'nat') out.push([`${k} negative`, put({ ...rest, [k]: 'int' }, { ...values[i], [k]: -1n })]);
      else if (U !== 'nat64') out.push([`${k} opt`, put({ ...rest, [k]: { opt: U } }, values[i])]);
    }
  });
  return out;
}
module.exports = { parse, load, resolve, conforms, plainType, encode, wrong, MODES };
