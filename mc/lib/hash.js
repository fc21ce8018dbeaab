'use strict';
// ICRC-3 representation-independent hash of a block, and IC hash-tree roots.
const crypto = require('crypto');
const sha = (...b) => { const h = crypto.createHash('sha256'); for (const x of b) h.update(x); return h.digest(); };
function leb(n) { const o = []; n = BigInt(n); while (n > 127n) { o.push(Number(n & 127n) | 128); n >>= 7n; } o.push(Number(n)); return Buffer.from(o); }
function sleb(x) { const o = []; x = BigInt(x); for (;;) { const b = Number(x & 127n); x >>= 7n; if ((x === 0n && !(b & 64)) || (x === -1n && (b & 64))) { o.push(b); return Buffer.from(o); } o.push(b | 128); } }
const keyHash = new Map();
function kh(k) { let h = keyHash.get(k); if (!h) keyHash.set(k, h = sha(Buffer.from(k))); return h; }
function valueHash(v) {
  const t = Object.keys(v)[0], x = v[t];
  switch (t) {
    case 'Nat': case 'Nat64': return sha(leb(x));
    case 'Int': return sha(sleb(x));
    case 'Text': return sha(Buffer.from(x));
    case 'Blob': return sha(Buffer.from(x, 'hex'));
    case 'Array': return sha(...x.map(valueHash));
    case 'Map': {
      const e = x.map(([k, w]) => Buffer.concat([kh(k), valueHash(w)])).sort(Buffer.compare);
      return sha(...e);
    }
    default: throw new Error('value ' + t);
  }
}
// minimal CBOR, enough for hash trees
function cbor(buf) {
  let i = 0;
  const len = a => { if (a < 24) return a; if (a === 24) return buf[i++]; if (a === 25) { i += 2; return buf.readUInt16BE(i - 2); } if (a === 26) { i += 4; return buf.readUInt32BE(i - 4); } if (a === 27) { i += 8; return Number(buf.readBigUInt64BE(i - 8)); } throw new Error('cbor'); };
  const item = () => {
    if (i >= buf.length) throw new Error('cbor end');
    const b = buf[i++], m = b >> 5, n = len(b & 31);
    if (m === 0) return n;
    if (m === 2) { i += n; return Buffer.from(buf.subarray(i - n, i)); }
    if (m === 3) { i += n; return buf.subarray(i - n, i).toString(); }
    if (m === 4) { const r = []; for (let k = 0; k < n; k++) r.push(item()); return r; }
    if (m === 6) return item();
    throw new Error('cbor major ' + m);
  };
  const r = item();
  if (i !== buf.length) throw new Error('cbor trailing');
  return r;
}
const sep = s => Buffer.concat([Buffer.from([s.length]), Buffer.from(s)]);
const label = l => (Buffer.isBuffer(l) ? l : Buffer.from(l));
function treeRoot(t) {
  switch (t[0]) {
    case 0: return sha(sep('ic-hashtree-empty'));
    case 1: return sha(sep('ic-hashtree-fork'), treeRoot(t[1]), treeRoot(t[2]));
    case 2: return sha(sep('ic-hashtree-labeled'), label(t[1]), treeRoot(t[2]));
    case 3: return sha(sep('ic-hashtree-leaf'), t[1]);
    case 4: return t[1];
    default: throw new Error('tree');
  }
}
function lookup(t, name) {
  if (t[0] === 1) return lookup(t[1], name) || lookup(t[2], name);
  if (t[0] === 2 && label(t[1]).toString() === name && t[2][0] === 3) return t[2][1];
  return null;
}
module.exports = { valueHash, leb, sha, cbor, treeRoot, lookup };
