'use strict';
// A small Candid codec. Types for encoding:
//   'nat' 'nat8' 'nat16' 'nat32' 'nat64' 'int' 'text' 'bool' 'null' 'principal' 'blob'
//   {opt:T} {vec:T} {record:{name|index:T}} {variant:{name:T}}
// Values: integers are BigInt (nat8/16/32 too), principals and blobs are hex
// strings, options are null or the value, variants are {Tag:value}.
// Decoding follows the type table in the message.
const PRIM = { null: -1, bool: -2, nat: -3, int: -4, nat8: -5, nat16: -6, nat32: -7, nat64: -8, int8: -9, int16: -10, int32: -11, int64: -12, float32: -13, float64: -14, text: -15, reserved: -16, empty: -17, principal: -24 };

function fieldHash(s) {
  let h = 0;
  for (const b of Buffer.from(s)) h = (Math.imul(h, 223) + b) >>> 0;
  return h;
}
const NAMES = new Map();
for (const n of `Ok Err owner subaccount allowance expires_at account spender from_subaccount amount
 expected_allowance fee memo created_at_time BadFee InsufficientFunds AllowanceChanged Expired TooOld
 CreatedInFuture Duplicate TemporarilyUnavailable GenericError expected_fee balance current_allowance
 ledger_time duplicate_of message error_code to block_index NoError CanisterError SysTransient
 DestinationInvalid Unknown SysFatal CanisterReject FailedToWithdraw fee_block rejection_code
 rejection_reason InvalidReceiver receiver spender_subaccount from FailedToWithdrawFrom
 withdraw_from_block refund_block approval_refund_block InsufficientAllowance url name block_type
 BadBurn min_burn_amount Int Map Nat Nat64 Blob Text Array canister_id start end length log_length
 blocks id block archived_blocks args callback certificate hash_tree max_blocks_per_request index_id
 initial_balances Unset SetTo change_index_id Init Upgrade creation_args settings subnet_selection
 value controllers public allowed_viewers compute_allocation memory_allocation freezing_threshold
 reserved_cycles_limit wasm_memory_limit wasm_memory_threshold log_visibility environment_variables
 Subnet subnet Filter subnet_type block_id FailedToCreate error FailedToCreateFrom create_from_block
 method body headers status_code from_account prev_spender take to_spender AccessDenied reason
 IndexPrincipalNotSet description Refunded RefundFailed refund_amount create_error refund_error
 canister_id sender_canister_version cycles ledger_id upgrade streaming_strategy data xdr_permyriad_per_icp
 timestamp_seconds certificate hash_tree`.split(/\s+/)) NAMES.set(fieldHash(n), n);

class Out {
  constructor() { this.b = Buffer.allocUnsafe(512); this.n = 0; }
  room(k) { if (this.n + k > this.b.length) { const c = Buffer.allocUnsafe((this.n + k) * 2); this.b.copy(c, 0, 0, this.n); this.b = c; } }
  u8(x) { this.room(1); this.b[this.n++] = x; }
  leb(x) { // number or BigInt
    if (typeof x === 'number') { while (x > 127) { this.u8((x % 128) | 128); x = Math.floor(x / 128); } this.u8(x); return; }
    if (x < 0n) throw new Error('negative nat');
    while (x > 127n) { this.u8(Number(x & 127n) | 128); x >>= 7n; }
    this.u8(Number(x));
  }
  sleb(x) {
    x = BigInt(x);
    for (;;) {
      const b = Number(x & 127n); x >>= 7n;
      if ((x === 0n && !(b & 64)) || (x === -1n && (b & 64))) { this.u8(b); return; }
      this.u8(b | 128);
    }
  }
  hex(h) { const k = h.length >> 1; this.room(k); this.b.write(h, this.n, 'hex'); this.n += k; }
  bytes(a) { this.room(a.length); this.b.set(a, this.n); this.n += a.length; }
  int(x, k) { this.room(k); x = BigInt(x); for (let i = 0; i < k; i++) { this.b[this.n++] = Number(x & 255n); x >>= 8n; } }
  get() { return Uint8Array.prototype.slice.call(this.b, 0, this.n); }
}

const fkey = k => (/^\d+$/.test(k) ? Number(k) : fieldHash(k));
const norm = t => (t === 'blob' ? { vec: 'nat8' } : t);
function fieldsOf(t) {
  if (t.sorted) return t.sorted;
  const f = Object.entries(t.record || t.variant).map(([k, ty]) => ({ k, h: fkey(k), ty }));
  f.sort((a, b) => a.h - b.h);
  Object.defineProperty(t, 'sorted', { value: f });
  return f;
}

// header (type table and argument types) of an argument list, cached per list
const headers = new Map();
function header(types) {
  let h = headers.get(types);
  if (h) return h;
  const table = [];
  const seen = new Map();
  const ref = t0 => {
    if (typeof t0 === 'string' && t0 !== 'blob') { if (!(t0 in PRIM)) throw new Error('type ' + t0); return PRIM[t0]; }
    const t = norm(t0);
    const key = JSON.stringify(t);
    if (seen.has(key)) return seen.get(key);
    const i = table.length;
    seen.set(key, i);
    table.push(null);
    if (t.opt !== undefined) table[i] = [-18, ref(t.opt)];
    else if (t.vec !== undefined) table[i] = [-19, ref(t.vec)];
    else table[i] = [t.record ? -20 : -21, fieldsOf(t).map(f => [f.h, ref(f.ty)])];
    return i;
  };
  const args = types.map(ref);
  const o = new Out();
  o.bytes(Buffer.from('DIDL'));
  o.leb(table.length);
  for (const [c, x] of table) {
    o.sleb(c);
    if (Array.isArray(x)) { o.leb(x.length); for (const [h2, r] of x) { o.leb(h2); o.sleb(r); } } else o.sleb(x);
  }
  o.leb(args.length);
  for (const a of args) o.sleb(a);
  h = o.get();
  headers.set(types, h);
  return h;
}

const FIX = { nat8: 1, nat16: 2, nat32: 4, nat64: 8, int64: 8 };
function put(o, t, v) {
  if (typeof t === 'string') {
    switch (t) {
      case 'nat': o.leb(v); return;
      case 'int': o.sleb(v); return;
      case 'text': { const b = Buffer.from(v); o.leb(b.length); o.bytes(b); return; }
      case 'bool': o.u8(v ? 1 : 0); return;
      case 'null': case 'reserved': return;
      case 'principal': o.u8(1); o.leb(v.length >> 1); o.hex(v); return;
      case 'blob': o.leb(v.length >> 1); o.hex(v); return;
      default: o.int(v, FIX[t]); return;
    }
  }
  if (t.opt !== undefined) { if (v === null || v === undefined) o.u8(0); else { o.u8(1); put(o, t.opt, v); } return; }
  if (t.vec !== undefined) { o.leb(v.length); for (const x of v) put(o, t.vec, x); return; }
  const fs = fieldsOf(t);
  if (t.record) { for (const f of fs) put(o, f.ty, v[f.k]); return; }
  const tag = Object.keys(v)[0];
  const i = fs.findIndex(f => f.k === tag);
  if (i < 0) throw new Error('variant tag ' + tag);
  o.leb(i);
  put(o, fs[i].ty, v[tag]);
}
function encode(types, values) {
  const o = new Out();
  o.bytes(header(types));
  types.forEach((t, i) => put(o, t, values[i]));
  return o.get();
}

class In {
  constructor(b) { this.b = b; this.i = 0; }
  u8() { if (this.i >= this.b.length) throw new Error('candid: end of data'); return this.b[this.i++]; }
  lebn() { let r = 0, m = 1; for (;;) { const x = this.u8(); r += (x & 127) * m; if (x < 128) return r; m *= 128; } }
  leb() {
    let r = 0, m = 1, k = 0;
    const at = this.i;
    for (;;) { const x = this.u8(); r += (x & 127) * m; if (x < 128) return BigInt(r); m *= 128; if (++k === 7) break; }
    this.i = at;
    let R = 0n, s = 0n;
    for (;;) { const x = this.u8(); R |= BigInt(x & 127) << s; if (x < 128) return R; s += 7n; }
  }
  sleb() { let R = 0n, s = 0n; for (;;) { const x = this.u8(); R |= BigInt(x & 127) << s; s += 7n; if (x < 128) { if (x & 64) R -= 1n << s; return R; } } }
  int(k) { let r = 0n; for (let i = 0; i < k; i++) r |= BigInt(this.u8()) << BigInt(8 * i); return r; }
  hex(k) { if (this.i + k > this.b.length) throw new Error('candid: end of data'); const s = Buffer.from(this.b.buffer, this.b.byteOffset + this.i, k).toString('hex'); this.i += k; return s; }
  text(k) { if (this.i + k > this.b.length) throw new Error('candid: end of data'); const s = Buffer.from(this.b.buffer, this.b.byteOffset + this.i, k).toString(); this.i += k; return s; }
}

const name = h => NAMES.get(h) || String(h);
function parseHeader(d) {
  if (d.text(4) !== 'DIDL') throw new Error('not candid');
  const table = [];
  for (let n = d.lebn(); n > 0; n--) {
    const c = Number(d.sleb());
    if (c === -18 || c === -19) table.push([c, Number(d.sleb())]);
    else if (c === -20 || c === -21) {
      const f = [];
      for (let k = d.lebn(); k > 0; k--) { const h = d.lebn(); f.push([name(h), Number(d.sleb())]); }
      table.push([c, f]);
    } else if (c === -22) {
      const f = { args: [], res: [], modes: [] };
      for (let k = d.lebn(); k > 0; k--) f.args.push(Number(d.sleb()));
      for (let k = d.lebn(); k > 0; k--) f.res.push(Number(d.sleb()));
      for (let k = d.lebn(); k > 0; k--) f.modes.push(d.u8());
      table.push([c, f]);
    } else throw new Error('candid type ' + c);
  }
  const args = [];
  for (let n = d.lebn(); n > 0; n--) args.push(Number(d.sleb()));
  return { table, args };
}
function get(d, T, t) {
  if (t < 0) {
    switch (t) {
      case -1: case -16: return null;
      case -2: return d.u8() === 1;
      case -3: return d.leb();
      case -4: return d.sleb();
      case -5: return d.int(1);
      case -6: return d.int(2);
      case -7: return d.int(4);
      case -8: return d.int(8);
      case -9: return BigInt.asIntN(8, d.int(1));
      case -10: return BigInt.asIntN(16, d.int(2));
      case -11: return BigInt.asIntN(32, d.int(4));
      case -12: return BigInt.asIntN(64, d.int(8));
      case -15: return d.text(d.lebn());
      case -24: d.u8(); return d.hex(d.lebn());
      default: throw new Error('candid prim ' + t);
    }
  }
  const [c, x] = T[t];
  if (c === -18) return d.u8() ? get(d, T, x) : null;
  if (c === -19) {
    const n = d.lebn();
    if (x === -5) return d.hex(n);
    const r = [];
    for (let i = 0; i < n; i++) r.push(get(d, T, x));
    return r;
  }
  if (c === -20) {
    if (x.length && x.every(([k], i) => k === String(i))) return x.map(([, ty]) => get(d, T, ty));
    const r = {};
    for (const [k, ty] of x) r[k] = get(d, T, ty);
    return r;
  }
  if (c === -21) { const [k, ty] = x[d.lebn()]; return { [k]: get(d, T, ty) }; }
  if (c === -22) { d.u8(); d.u8(); const p = d.hex(d.lebn()); return { func: [p, d.text(d.lebn())] }; }
  throw new Error('candid con ' + c);
}
const lastHeader = new Map();
function decode(bytes, cacheKey) {
  const d = new In(bytes);
  let H = cacheKey && lastHeader.get(cacheKey);
  if (H && bytes.length >= H.raw.length && H.raw.equals(Buffer.from(bytes.buffer, bytes.byteOffset, H.raw.length))) d.i = H.raw.length;
  else {
    H = parseHeader(d);
    H.raw = Buffer.from(bytes.subarray(0, d.i));
    if (cacheKey) lastHeader.set(cacheKey, H);
  }
  const r = H.args.map(t => get(d, H.table, t));
  if (d.i !== bytes.length) throw new Error('candid: trailing bytes');
  return r;
}
// the types a message says it has
const typesOf = bytes => { const d = new In(bytes), H = parseHeader(d); H.size = d.i; return H; };
module.exports = { encode, decode, fieldHash, typesOf, PRIM };
