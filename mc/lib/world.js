'use strict';
// One step of the ledger under test, judged against what the documentation
// says about it. `step` executes an operation on the real canister and
// compares response, balances, allowances, supply, blocks, certified data,
// outgoing calls and counters with what follows from the observed state before
// the step and the history of accepted requests. Every deviation is a finding
// {cat, msg}; which categories matter is the property's business.
const L = require('./ledger.js');
const H = require('./hash.js');
const D = require('./did.js');

const FEE = 100_000_000n;
const U128 = 1n << 128n;
const U64MAX = (1n << 64n) - 1n;
const WINDOW = 86_400_000_000_000n;
const DRIFT = 60_000_000_000n;
const CMC = '00000000000000040101';
const LOGMEM = new Set([1, 2]);

const key = a => a.owner + '.' + (a.subaccount && !/^0*$/.test(a.subaccount) ? a.subaccount : '');
const raw = a => a.owner + '.' + (a.subaccount === null || a.subaccount === undefined ? '-' : a.subaccount);
const max0 = x => (x > 0n ? x : 0n);
const show = v => JSON.stringify(v, (k, x) => (typeof x === 'bigint' ? `${x}n` : x instanceof Map ? [...x] : x));

// ---- requests ---------------------------------------------------------------
const SPEND = new Set(['icrc2_transfer_from', 'withdraw_from', 'create_canister_from']);
function request(op) {
  const a = op.a;
  const r = { m: op.m, by: op.by };
  if (op.m === 'deposit') return { ...r, kind: 'mint', to: a.to, memo: a.memo ?? null, amount: op.cyc || 0n, cat: null };
  r.from = SPEND.has(op.m) ? a.from : { owner: op.by, subaccount: a.from_subaccount ?? null };
  r.spender = SPEND.has(op.m) ? { owner: op.by, subaccount: a.spender_subaccount ?? null } : null;
  r.cat = a.created_at_time ?? null;
  r.amount = a.amount;
  r.memo = null;
  r.fee = null;
  if (op.m === 'icrc1_transfer' || op.m === 'icrc2_transfer_from') Object.assign(r, { kind: 'xfer', to: a.to, fee: a.fee ?? null, memo: a.memo ?? null });
  else if (op.m === 'icrc2_approve') Object.assign(r, { kind: 'approve', spender: a.spender, fee: a.fee ?? null, memo: a.memo ?? null, expected: a.expected_allowance ?? null, expires: a.expires_at ?? null });
  else if (op.m === 'withdraw' || op.m === 'withdraw_from') Object.assign(r, { kind: 'withdraw', dest: a.to });
  else if (op.m === 'create_canister' || op.m === 'create_canister_from') Object.assign(r, { kind: 'create', cargs: a.creation_args ?? null });
  else throw new Error('op ' + op.m);
  r.third = r.kind !== 'approve' && r.spender && key(r.spender) !== key(r.from);
  return r;
}
const cap = x => (x >= U128 ? U128 - 1n : x);
function dedupKeys(r) {
  if (r.cat === null || r.kind === 'mint') return null;
  const f = acc => [r.kind, acc(r.from), r.spender ? acc(r.spender) : '', r.to ? acc(r.to) : '', r.dest || '', r.fee, r.memo, r.expected ?? null, r.expires ?? null, r.cat];
  return {
    raw: show([...f(raw), r.amount, r.cargs || null]),
    canon: show([...f(key), cap(r.amount)]),
  };
}
const selfAuth = p => p.length === 58 && p.endsWith('02');

// ---- block values -------------------------------------------------------------
function plain(v) { // Value -> JS
  const t = Object.keys(v)[0], x = v[t];
  if (t === 'Map') return Object.fromEntries(x.map(([k, w]) => [k, plain(w)]));
  if (t === 'Array') return x.map(plain);
  return x;
}
const accVal = a => (a.subaccount && !/^0*$/.test(a.subaccount) ? [a.owner, a.subaccount] : [a.owner]);
const sameAcc = (v, a) => Array.isArray(v) && show(v.length === 2 && /^0{64}$/.test(v[1]) ? [v[0]] : v) === show(accVal(a));
// expected block: {ts, fee?, tx:{...}}; undefined = must be absent; DC = anything or nothing
const DC = Symbol('any');
const DCOPT = DC;
function blockDiff(b, want) {
  const bad = [];
  const top = new Set(['ts', 'fee', 'phash', 'tx']);
  for (const k of Object.keys(b)) if (!top.has(k)) bad.push(`unexpected field ${k}`);
  if (b.ts !== want.ts) bad.push(`ts ${b.ts} instead of ${want.ts}`);
  if (b.fee !== want.fee) bad.push(`fee ${b.fee} instead of ${want.fee}`);
  const tx = b.tx || {};
  for (const k of new Set([...Object.keys(tx), ...Object.keys(want.tx)])) {
    const w = want.tx[k], g = tx[k];
    if (w === DC) continue;
    if (w !== undefined && w !== null && typeof w === 'object') { if (g === undefined || !sameAcc(g, w)) bad.push(`tx.${k} ${show(g)} instead of ${show(accVal(w))}`); }
    else if (g !== (w ?? undefined)) bad.push(`tx.${k} ${show(g)} instead of ${show(w)}`);
  }
  return bad;
}
function requestBlock(r, now) {
  const ts = r.cat ?? undefined, memo = r.memo ?? undefined;
  const fee = r.fee === null ? FEE : undefined, txfee = r.fee ?? undefined;
  switch (r.kind) {
    case 'mint': return { ts: now, fee: 0n, tx: { op: 'mint', to: r.to, amt: r.amount - FEE, fee: FEE, memo } };
    case 'xfer': return { ts: now, fee, tx: { op: 'xfer', from: r.from, to: r.to, spender: r.spender || undefined, amt: r.amount, fee: txfee, memo, ts } };
    case 'approve': return { ts: now, fee, tx: { op: 'approve', from: r.from, spender: r.spender, amt: cap(r.amount), expected_allowance: r.expected ?? undefined, expires_at: r.expires ?? undefined, fee: txfee, memo, ts } };
    default: {
      let memo2 = 'fe'.repeat(32);
      if (r.kind === 'withdraw') { const n = r.dest.length / 2; memo2 = '81' + (n < 24 ? (0x40 + n).toString(16) : '58' + n.toString(16).padStart(2, '0')) + r.dest; }
      return { ts: now, fee: FEE, tx: { op: 'burn', from: r.from, spender: r.spender || undefined, amt: r.amount, ts, memo: memo2 } };
    }
  }
}

// ---- the block log's own account of the state -----------------------------------
function replayBlock(rep, b, bad) { // changes rep
  const { bal, alw } = rep;
  let supply = rep.supply;
  const tx = b.tx, k = v => v[0] + '.' + (v[1] && !/^0*$/.test(v[1]) ? v[1] : '');
  const fee = b.fee !== undefined ? b.fee : tx.fee;
  const add = (a, n) => { const v = (bal.get(a) || 0n) + n; if (v < 0n) bad.push(`a block takes ${-n} from ${a}, which has ${v - n}`); if (v === 0n) bal.delete(a); else bal.set(a, v); supply += n; };
  const use = (f, s, n) => {
    if (k(f) === k(s)) return;
    const p = k(f) + '>' + k(s), c = alw.get(p);
    if (!c || c.a < n || (c.e !== null && c.e <= b.ts)) { bad.push(`a block spends ${n} of the allowance ${p}, which is ${show(c)} at ${b.ts}`); return; }
    if (c.a === n) alw.delete(p); else alw.set(p, { a: c.a - n, e: c.e });
  };
  if (fee === undefined && tx.op !== 'mint') bad.push('a block without a fee');
  switch (tx.op) {
    case 'mint': add(k(tx.to), tx.amt); break;
    case 'burn': if (tx.spender) use(tx.from, tx.spender, tx.amt + fee); add(k(tx.from), -tx.amt - fee); break;
    case 'xfer': if (tx.spender) use(tx.from, tx.spender, tx.amt + fee); add(k(tx.from), -tx.amt - fee); add(k(tx.to), tx.amt); break;
    case 'approve': {
      add(k(tx.from), -fee);
      const p = k(tx.from) + '>' + k(tx.spender);
      if (tx.amt === 0n) alw.delete(p); else alw.set(p, { a: tx.amt, e: tx.expires_at ?? null });
      break;
    }
    default: bad.push('block of kind ' + tx.op);
  }
  rep.supply = supply;
}

const M = {
  approvals: 'cycles_ledger_number_of_approvals', expirations: 'cycles_ledger_number_of_approval_expiration_entries',
  hashes: 'cycles_ledger_number_of_transaction_hashes', stamps: 'cycles_ledger_number_of_transaction_timestamps',
};

class World {
  // accounts: observed accounts (every account the operations can touch);
  // pairs: [from, spender] accounts whose allowance is observed
  constructor(sim, { accounts, pairs = [], metrics = false, fullLog = false, probe = null, listings = false, aliases = false, http = false, exits = false, iface = null, open = false }) {
    this.sim = sim;
    this.accounts = []; this.idx = new Map();
    for (const a of accounts) if (!this.idx.has(key(a))) { this.idx.set(key(a), this.accounts.length); this.accounts.push(a); }
    this.pairs = []; this.pidx = new Map();
    for (const [f, s] of pairs) { const k = key(f) + '>' + key(s); if (!this.pidx.has(k)) { this.pidx.set(k, this.pairs.length); this.pairs.push([f, s]); } }
    this.opts = { metrics, fullLog, probe, listings, aliases, http, exits, iface, open };
    this.unlike = []; this.types = new Map();
    this.eBal = this.accounts.map(a => L.enc('icrc1_balance_of', a));
    this.eAlw = this.pairs.map(([f, s]) => L.enc('icrc2_allowance', { account: f, spender: s }));
    this.eNone = L.enc('icrc1_total_supply', null);
    this.eMet = L.enc('http_request', { url: '/metrics', method: 'GET', body: '', headers: [] });
    this.encOps = new Map();
    this.outcomes = new Map();
  }
  q(s, m, e, caller) {
    const r = L.queryEnc(this.sim, s, m, e, caller);
    if (r.reject) throw new QueryTrap(m, r.msg);
    if (this.opts.iface) this.published(m, L.lastReply());
    return r.ok;
  }
  // the types of an answer against the published ones
  published(m, bytes) {
    let c = this.types.get(m);
    if (!c || bytes.length < c.raw.length || !c.raw.equals(Buffer.from(bytes.buffer, bytes.byteOffset, c.raw.length))) {
      const T = L.C.typesOf(bytes), f = this.opts.iface.methods[m];
      this.types.set(m, c = { raw: Buffer.from(bytes.subarray(0, T.size)), bad: f ? D.conforms(this.opts.iface, T, f.res) : [] });
    }
    for (const x of c.bad) if (!this.unlike.includes(m + ': ' + x)) this.unlike.push(m + ': ' + x);
  }
  observe(s) {
    const bal = this.eBal.map(e => this.q(s, 'icrc1_balance_of', e));
    const alw = this.eAlw.map(e => { const r = this.q(s, 'icrc2_allowance', e); return { a: r.allowance, e: r.expires_at }; });
    const o = { bal, alw, supply: this.q(s, 'icrc1_total_supply', this.eNone), len: this.q(s, 'icrc3_get_blocks', L.enc('icrc3_get_blocks', [])).log_length };
    if (this.opts.metrics) o.met = this.metrics(s);
    return o;
  }
  metrics(s) {
    const r = this.q(s, 'http_request', this.eMet);
    const t = Buffer.from(r.body, 'hex').toString(), m = {};
    for (const line of t.split('\n')) { if (line[0] === '#') continue; const x = /^(\w+) (\S+)/.exec(line); if (x) m[x[1]] = Number(x[2]); }
    return m;
  }
  blocks(s, from, to) {
    const out = [];
    let at = from;
    while (at < to) {
      const r = this.q(s, 'icrc3_get_blocks', L.encArgs('icrc3_get_blocks', [{ start: at, length: to - at }]));
      if (!r.blocks.length) return null;
      for (const b of r.blocks) { if (b.id !== at) return null; out.push(b.block); at += 1n; }
    }
    return out;
  }

  // first node after installation
  start(state, { cfg = {}, initial = [] } = {}) {
    this.sim.keep(state);
    const o = this.observe(state);
    let g = {
      dedup: new Map(), canon: new Map(), pending: [], tip: null, hashes: [],
      rep: { bal: new Map(), alw: new Map(), supply: 0n }, lastTs: 0n, ops: 0,
      cfg: { max: 100n, index: null, ...cfg }, store: new Map(), reserve: null,
    };
    const F = [];
    const node = { s: state, o: { ...o, len: 0n }, g };
    const nb = this.blocks(state, 0n, o.len);
    const want = initial.map(([to, amount]) => ({ ts: state.time, fee: 0n, tx: { op: 'mint', to, amt: amount, fee: FEE } }));
    g = this.newBlocks(node, state, o, nb, want, F);
    this.consistency(state, o, g, F);
    if (initial.length) this.expectBal(o, this.accounts.map(a => initial.reduce((n, [to, x]) => n + (key(to) === key(a) ? x : 0n), 0n)), F, 'init');
    g.reserve = state.cycles - o.supply;
    return { node: { s: state, o, g }, findings: F };
  }
  expectBal(o, want, F, cat) { o.bal.forEach((b, i) => { if (b !== want[i]) F.push({ cat, msg: `balance of ${key(this.accounts[i])} is ${b} instead of ${want[i]}` }); }); }

  // checks the blocks from node.o.len on; returns the new ghost
  newBlocks(node, s, o, nb, want, F) {
    const g = { ...node.g };
    const n = o.len - node.o.len;
    if (n !== BigInt(want.length)) F.push({ cat: 'len', msg: `${n} new blocks instead of ${want.length}` });
    if (n <= 0n) return g;
    if (!nb) { F.push({ cat: 'range', msg: `blocks ${node.o.len}..${o.len} cannot be fetched` }); return g; }
    g.rep = { bal: new Map(g.rep.bal), alw: new Map(g.rep.alw), supply: g.rep.supply };
    if (this.opts.fullLog) g.hashes = g.hashes.slice();
    nb.forEach((v, i) => {
      const b = plain(v);
      if (!b.tx || typeof b.tx !== 'object') { F.push({ cat: 'block', msg: `block without a transaction ${show(b)}` }); return; }
      const w = want[i];
      if (w) for (const d of blockDiff(b, w)) F.push({ cat: 'block', msg: `block ${node.o.len + BigInt(i)}: ${d}` });
      if ((b.phash ?? null) !== g.tip) F.push({ cat: 'chain', msg: `block ${node.o.len + BigInt(i)} has phash ${b.phash}; the block before it hashes to ${g.tip}` });
      if (b.ts < g.lastTs) F.push({ cat: 'block', msg: `block timestamps go back from ${g.lastTs} to ${b.ts}` });
      g.lastTs = b.ts;
      g.tip = H.valueHash(v).toString('hex');
      if (this.opts.fullLog) g.hashes.push(g.tip);
      const bad = [];
      if (b.tx.to && b.tx.amt === 0n) g.zero = true;
      try { replayBlock(g.rep, b, bad); } catch (e) { bad.push(`block ${show(b)} cannot be replayed: ${e.message}`); }
      for (const x of bad) F.push({ cat: 'replay', msg: x });
    });
    return g;
  }

  // what must hold of every observed state
  consistency(s, o, g, F) {
    let sum = 0n;
    o.bal.forEach(b => { sum += b; });
    if (this.opts.open) for (const [k, b] of g.rep.bal) if (!this.idx.has(k)) sum += b;
    if (sum !== o.supply) F.push({ cat: 'sum', msg: `total supply ${o.supply}, balances add up to ${sum}` });
    // cycles held beyond the supply never shrink (calls answered honestly)
    if (g.reserve !== null && s.cycles - o.supply < g.reserve) F.push({ cat: 'solvency', msg: `the ledger holds ${s.cycles} cycles for a supply of ${o.supply}; the difference was ${g.reserve} before` });
    g.reserve = s.cycles - o.supply;
    if (g.rep.supply !== o.supply) F.push({ cat: 'replay', msg: `the block log adds up to a supply of ${g.rep.supply}; reported ${o.supply}` });
    o.bal.forEach((b, i) => { const w = g.rep.bal.get(key(this.accounts[i])) || 0n; if (w !== b) F.push({ cat: 'replay', msg: `replaying the block log gives ${key(this.accounts[i])} ${w}; reported ${b}` }); });
    o.alw.forEach((x, i) => {
      const k = key(this.pairs[i][0]) + '>' + key(this.pairs[i][1]);
      const w = liveAt(g.rep.alw.get(k), s.time);
      if (w.a !== x.a || w.e !== x.e) F.push({ cat: 'replay', msg: `replaying the block log gives the allowance ${k} ${show(w)}; reported ${show(x)}` });
    });
    this.certificate(s, o, g, F);
    if (this.opts.fullLog === true) this.wholeLog(s, o, g, F);
    if (this.opts.metrics) this.counters(s, o, g, F);
    if (this.opts.listings) this.listings(s, o, g, F);
    if (this.opts.aliases) this.aliases(s, o, F);
    if (this.opts.http) this.http(s, F);
    if (this.opts.exits) this.exits(s, o, g, F);
    if (this.opts.iface) this.interface(s, F);
  }
  // every published method is there, in its mode, and those without an
  // argument answer with the published type
  interface(s, F) {
    for (const [m, f] of Object.entries(this.opts.iface.methods)) {
      const kind = f.modes.includes('query') ? 'canister_query ' : f.modes.includes('composite_query') ? 'canister_composite_query ' : 'canister_update ';
      if (!this.sim.inst.exports[kind + m]) F.push({ cat: 'interface', msg: `there is no ${kind}${m}` });
      else if (kind === 'canister_query ' && !f.args.length) this.q(s, m, this.eNone);
    }
  }
  // whoever has cycles can take all of them out, whoever has an allowance can
  // use all of it, whoever gave one can revoke it, and every open call can end
  exits(s, o, g, F) {
    const { sim } = this;
    const bad = msg => F.push({ cat: 'exit', msg });
    const run = (m, by, a) => { const x = sim.update(s, { method: m, caller: by, arg: L.encArgs(m, a), cycles: 0n }); return { x, resp: this.decode({ m }, x.response) }; };
    const left = (st, a) => this.q(st, 'icrc1_balance_of', L.enc('icrc1_balance_of', a));
    const own = a => ({ from_subaccount: a.subaccount ?? null, created_at_time: null });
    this.accounts.forEach((a, i) => {
      const n = o.bal[i] - FEE;
      if (n < 0n) return;
      const to = this.accounts[(i + 1) % this.accounts.length];
      const t = run('icrc1_transfer', a.owner, { ...own(a), to, amount: n, fee: null, memo: null });
      if (t.resp.ok === undefined) bad(`${key(a)} has ${o.bal[i]} and cannot transfer ${n}: ${show(t.resp)}`);
      else if (left(t.x.state, a) !== 0n) bad(`${key(a)} had ${o.bal[i]} and transferred ${n}; ${left(t.x.state, a)} is left`);
      if (n === 0n) return;
      for (const m of ['withdraw', 'create_canister']) {
        const w = run(m, a.owner, m === 'withdraw' ? { ...own(a), to: '00000000000000770101', amount: n } : { ...own(a), amount: n, creation_args: null });
        if (!w.resp.pending || w.x.made.length !== 1 || w.x.made[0].cycles !== n) { bad(`${key(a)} has ${o.bal[i]} and cannot take out ${n} by ${m}: ${show(w.resp)}`); continue; }
        const y = sim.deliver(w.x.state, w.x.made[0].id, m === 'withdraw' ? { reply: L.emptyReply, refund: 0n } : { reply: L.cmcReply({ Ok: '00000000000000780101' }), refund: 0n });
        const z = this.decode({ m }, y.response);
        if (z.ok === undefined) bad(`the ${m} of all ${key(a)} has is answered ${show(z)}`);
        else if (left(y.state, a) !== 0n) bad(`${left(y.state, a)} is left of ${key(a)} after it took out everything`);
      }
    });
    this.pairs.forEach(([f, sp], i) => {
      const w = o.alw[i].a, b = this.bal(o, f), n = (w < b ? w : b) - FEE;
      if (w > 0n && b >= FEE) {
        const t = run('icrc2_approve', f.owner, { ...own(f), spender: sp, amount: 0n, expected_allowance: null, expires_at: null, fee: null, memo: null });
        if (t.resp.ok === undefined) bad(`${key(f)} cannot revoke the allowance of ${key(sp)}: ${show(t.resp)}`);
        else { const r = this.q(t.x.state, 'icrc2_allowance', this.eAlw[i]); if (r.allowance !== 0n) bad(`${key(f)} revoked the allowance of ${key(sp)}; it is ${show(r)}`); }
      }
      if (n < 0n || w === 0n) return;
      const sub = { spender_subaccount: sp.subaccount ?? null, from: f, created_at_time: null };
      const t = run('icrc2_transfer_from', sp.owner, { ...sub, to: sp, amount: n, fee: null, memo: null });
      if (t.resp.ok === undefined) bad(`${key(sp)} may spend ${w} of the ${b} of ${key(f)} and cannot transfer ${n}: ${show(t.resp)}`);
      if (n === 0n) return;
      const u = run('withdraw_from', sp.owner, { ...sub, to: '00000000000000770101', amount: n });
      if (!u.resp.pending) bad(`${key(sp)} may spend ${w} of the ${b} of ${key(f)} and cannot withdraw ${n}: ${show(u.resp)}`);
    });
    for (const p of g.pending) {
      if (p.call === undefined) continue;
      for (const o1 of [{ reject: 4, msg: 'x' }, p.kind === 'create' ? { reply: L.cmcReply({ Ok: '00000000000000780101' }), refund: 0n } : { reply: L.emptyReply, refund: 0n }]) {
        const y = sim.deliver(s, p.call, o1);
        if (y.trap || !y.response || y.response.reject) bad(`the open ${p.m} of ${p.amount} cannot end: ${y.trap || show(y.response)}`);
      }
    }
  }
  // the default account is the same however its subaccount is spelled
  aliases(s, o, F) {
    const zero = '00'.repeat(32);
    const forms = a => (a.subaccount && !/^0*$/.test(a.subaccount) ? [a] : [{ owner: a.owner, subaccount: null }, { owner: a.owner, subaccount: zero }]);
    this.accounts.forEach((a, i) => { for (const x of forms(a)) { const b = this.q(s, 'icrc1_balance_of', L.enc('icrc1_balance_of', x)); if (b !== o.bal[i]) F.push({ cat: 'alias', msg: `balance of ${raw(x)} is ${b}, of ${raw(a)} ${o.bal[i]}` }); } });
    this.pairs.forEach(([f, sp], i) => { for (const x of forms(f)) for (const y of forms(sp)) { const r = this.q(s, 'icrc2_allowance', L.enc('icrc2_allowance', { account: x, spender: y })), w = o.alw[i]; if (r.allowance !== w.a || r.expires_at !== w.e) F.push({ cat: 'alias', msg: `allowance of ${raw(x)}>${raw(y)} is ${show(r)}, of ${raw(f)}>${raw(sp)} ${show(w)}` }); } });
  }
  http(s, F) {
    const get = url => this.q(s, 'http_request', L.enc('http_request', { url, method: 'GET', body: '', headers: [] }));
    const text = r => Buffer.from(r.body, 'hex').toString();
    const code = (url, r, n) => { if (Number(r.status_code) !== n) F.push({ cat: 'http', msg: `${url} answers ${r.status_code} instead of ${n}` }); };
    const len = (url, r) => { const h = r.headers.find(x => x[0].toLowerCase() === 'content-length'); if (h && Number(h[1]) !== r.body.length / 2) F.push({ cat: 'http', msg: `${url}: content-length ${h[1]}, ${r.body.length / 2} bytes` }); };
    for (const u of ['/metrics', '/metrics?x=1']) { const r = get(u); code(u, r, 200); len(u, r); if (text(r) !== text(get('/metrics'))) F.push({ cat: 'http', msg: `${u} differs from /metrics` }); }
    for (const u of ['', '/', '/metric', '/metrics/', '/Metrics', '/logs/', '/x']) code(u, get(u), 404);
    const l = get('/logs');
    code('/logs', l, 200); len('/logs', l);
    let e = null;
    try { e = JSON.parse(text(l)).entries; } catch (x) { F.push({ cat: 'http', msg: `/logs is not JSON: ${x.message}` }); }
    if (e && !e.every(x => typeof x.timestamp === 'number' && (x.priority === 'P0' || x.priority === 'P1') && typeof x.message === 'string')) F.push({ cat: 'http', msg: '/logs has an entry without timestamp, priority or message' });
    const m = this.metrics(s);
    if (m.cycles_ledger_stable_memory_pages !== s.stableSize || m.cycles_ledger_stable_memory_bytes !== s.stableSize * 65536) F.push({ cat: 'metric', msg: `${m.cycles_ledger_stable_memory_pages} pages and ${m.cycles_ledger_stable_memory_bytes} bytes of stable memory; there are ${s.stableSize} pages` });
    const line = text(get('/metrics')).split('\n').find(x => x.startsWith('cycle_balance'));
    if (!line || Number(line.split(/[ }]+/).filter(Boolean)[1]) !== Number(s.cycles)) F.push({ cat: 'metric', msg: `${line}; the canister holds ${s.cycles} cycles` });
  }
  certificate(s, o, g, F) {
    const c = this.q(s, 'icrc3_get_tip_certificate', this.eNone);
    if (o.len === 0n) return;
    if (!c) { F.push({ cat: 'cert', msg: 'no tip certificate' }); return; }
    if (Buffer.from(c.certificate, 'hex').toString() !== 'certificate of ' + s.cert) F.push({ cat: 'cert', msg: 'the certificate is not the system\'s' });
    let t;
    try { t = H.cbor(Buffer.from(c.hash_tree, 'hex')); if (H.treeRoot(t).toString('hex') !== s.cert) F.push({ cat: 'cert', msg: `hash tree root ${H.treeRoot(t).toString('hex')}, certified ${s.cert}` }); } catch (e) { F.push({ cat: 'cert', msg: 'hash tree: ' + e.message }); return; }
    const i = H.lookup(t, 'last_block_index'), h = H.lookup(t, 'last_block_hash');
    if (!i || !i.equals(H.leb(o.len - 1n))) F.push({ cat: 'cert', msg: `certified last_block_index ${i && i.toString('hex')}, the last block is ${o.len - 1n}` });
    if (!h || h.toString('hex') !== g.tip) F.push({ cat: 'cert', msg: `certified last_block_hash ${h && h.toString('hex')}, the last block hashes to ${g.tip}` });
  }
  wholeLog(s, o, g, F) {
    if (g.cfg.max === 0n) return; // no blocks are served
    const b = this.blocks(s, 0n, o.len);
    if (!b) { F.push({ cat: 'range', msg: 'the block log cannot be fetched' }); return; }
    b.forEach((v, i) => { const h = H.valueHash(v).toString('hex'); if (h !== g.hashes[i]) F.push({ cat: 'append', msg: `block ${i} changed` }); });
  }
  counters(s, o, g, F) {
    const m = o.met, f = (k, w) => { if (m[k] !== Number(w)) F.push({ cat: 'metric', msg: `${k} is ${m[k]} instead of ${w}` }); };
    f('cycles_ledger_number_of_blocks', o.len);
    f('cycles_ledger_total_supply', o.supply);
    f('cycles_ledger_cycle_balance', s.cycles);
    // an account that was credited with 0 may or may not be counted
    if (!g.zero) f('cycles_ledger_number_of_balances', o.bal.filter(x => x > 0n).length + (this.opts.open ? [...g.rep.bal].filter(([k, b]) => b > 0n && !this.idx.has(k)).length : 0));
  }
  // icrc103_get_allowances of every owner lists exactly the live allowances
  listings(s, o, g, F) {
    const owners = [...new Set(this.pairs.map(([f]) => f.owner))];
    for (const ow of owners) {
      const r = this.q(s, 'icrc103_get_allowances', L.enc('icrc103_get_allowances', { from_account: { owner: ow, subaccount: null }, prev_spender: null, take: null }));
      const got = new Map((r.Ok || []).map(x => [key(x.from_account) + '>' + key(x.to_spender), { a: x.allowance, e: x.expires_at }]));
      this.pairs.forEach(([f, sp], i) => {
        if (f.owner !== ow) return;
        const k = key(f) + '>' + key(sp), w = o.alw[i], x = got.get(k) || { a: 0n, e: null };
        if (w.a !== x.a || (w.a > 0n && w.e !== x.e)) F.push({ cat: 'listing', msg: `icrc103_get_allowances gives ${k} ${show(x)}, icrc2_allowance ${show(w)} at ${s.time}` });
      });
    }
  }

  // ---- what applies to a request in an observed state -----------------------------
  bal(o, a) { const i = this.idx.get(key(a)); 
    if (i !== undefined) return o.bal[i];
    if (!this.opts.open) throw new Error('account outside the universe: ' + key(a));
    const k = key(a); // not observed: asked of the state before the step
    if (!this.extra.has(k)) this.extra.set(k, this.q(this.cur, 'icrc1_balance_of', L.enc('icrc1_balance_of', a)));
    return this.extra.get(k); }
  alw(o, f, s) { const i = this.pidx.get(key(f) + '>' + key(s)); if (i === undefined) { // not observed: asked of the state before the step
      const k = key(f) + '>' + key(s);
      if (!this.extra.has(k)) { const r = this.q(this.cur, 'icrc2_allowance', L.enc('icrc2_allowance', { account: f, spender: s })); this.extra.set(k, { a: r.allowance, e: r.expires_at }); }
      return this.extra.get(k);
    }
    return o.alw[i]; }
  conds(node, r) {
    const { s, o, g } = node, now = s.time;
    const E = new Map(); // kind -> {payload?, must, alt?}
    const T = [];
    const on = (k, payload, x = {}) => E.set(k, { payload, must: true, ...x });
    if (r.memo !== null && r.memo.length > 64) T.push('memo');
    for (const x of [r.from, r.to, r.spender]) if (x && typeof x.subaccount === 'string' && x.subaccount.length !== 64) { T.push('subaccount'); return { E, T }; }
    if (r.kind === 'mint') {
      if (r.amount <= FEE) T.push('small');
      else if (this.bal(o, r.to) + r.amount - FEE >= U128 || o.supply + r.amount - FEE >= U128) T.push('overflow');
      return { E, T };
    }
    const keys = dedupKeys(r);
    if (r.cat !== null) {
      if (r.cat + WINDOW + DRIFT < now) on('TooOld');
      if (r.cat > now + DRIFT) on('CreatedInFuture', { ledger_time: now });
      const d = g.dedup.get(keys.raw), c = g.canon.get(keys.canon);
      if (d) on('Duplicate', { duplicate_of: d.idx, canister_id: d.canister }, { must: !E.has('TooOld') });
      else if (c) on('Duplicate', { anyOf: c }, { must: false });
    }
    const bal = this.bal(o, r.from);
    if (r.kind === 'approve') {
      if (r.from.owner === r.spender.owner) T.push('self');
      if (r.from.owner === '' || r.spender.owner === '') on('GenericError', null, { why: 'denied' });
      const self = r.from.owner === r.spender.owner;
      const cur = self ? 0n : this.alw(o, r.from, r.spender).a;
      if (r.expected !== null && r.expected !== cur) on('AllowanceChanged', { current_allowance: cur }, { must: !self });
      if (r.fee !== null && r.fee !== FEE) on('BadFee', { expected_fee: FEE });
      if (bal < FEE) on('InsufficientFunds', { balance: bal });
      if (r.expires !== null && r.expires <= now) on('Expired', { ledger_time: now });
      return { E, T };
    }
    if (r.kind === 'xfer') {
      const owners = [r.from.owner, r.to.owner, ...(r.spender ? [r.spender.owner] : [])];
      if (owners.includes('')) on('GenericError', null, { why: 'denied' });
      if (r.fee !== null && r.fee !== FEE) on('BadFee', { expected_fee: FEE });
      // the credit is checked before the debit: a transfer to oneself close to 2^128 may be refused
      if (this.bal(o, r.to) + r.amount >= U128 && !E.has('GenericError')) on('GenericError', null, { must: key(r.to) !== key(r.from), why: 'overflow' });
    }
    if (r.kind === 'withdraw') {
      if (selfAuth(r.dest)) on('InvalidReceiver', { receiver: r.dest });
      if (r.amount === 0n) on('GenericError', null, { why: 'zero' });
    }
    const need = r.amount + FEE;
    if (need > bal) on('InsufficientFunds', { balance: bal });
    if (r.third) {
      const cur = this.alw(o, r.from, r.spender);
      if (need > cur.a) {
        on('InsufficientAllowance', { allowance: cur.a });
        // an approval that has run out may be reported as such
        const st = g.store.get(key(r.from) + '>' + key(r.spender));
        if (cur.a === 0n && r.kind === 'xfer' && st && st.e !== null && st.e <= now && !E.has('GenericError')) on('GenericError', null, { must: false, why: 'expired' });
      }
    }
    return { E, T };
  }

  judgeRefusal(r, c, resp, F) {
    const { E, T } = c;
    if (resp.trap !== undefined) {
      if (!T.length) {
        F.push({ cat: 'trap', msg: `the call was rejected: ${resp.trap}; applicable: ${show([...E.keys()])}` });
        for (const [k, e] of E) if (e.must) F.push({ cat: 'missed:' + k, msg: `rejected (${resp.trap}) instead of ${k}` });
      }
      return;
    }
    const [K, p] = resp.err;
    const e = E.get(K);
    const dup = E.get('Duplicate');
    if (!e) {
      if (!(T.length && K === 'GenericError')) {
        F.push({ cat: 'refuse:' + K, msg: `refused with ${K} ${show(p)}; applicable: ${show([...E.keys(), ...T])}` });
        for (const [k, x] of E) if (x.must) F.push({ cat: 'missed:' + k, msg: `${K} instead of ${k}` });
      }
    } else if (e.payload) {
      const w = e.payload;
      const ok = K === 'Duplicate'
        ? (w.anyOf ? w.anyOf.includes(p.duplicate_of) : p.duplicate_of === w.duplicate_of)
        : Object.keys(w).every(k => p[k] === w[k]);
      if (!ok) F.push({ cat: 'payload:' + K, msg: `${K} ${show(p)} instead of ${show(w)}` });
      if (K === 'Duplicate' && r.kind === 'create' && !w.anyOf && w.canister_id !== undefined && (p.canister_id ?? null) !== w.canister_id) F.push({ cat: 'dupcanister', msg: `Duplicate names canister ${p.canister_id} instead of ${w.canister_id}` });
    }
    if (dup && dup.must && K !== 'Duplicate') F.push({ cat: 'prec:Duplicate', msg: `an accepted request was repeated and got ${K} instead of Duplicate of block ${dup.payload.duplicate_of}` });
    if (E.has('BadFee') && K === 'InsufficientFunds') F.push({ cat: 'prec:BadFee', msg: 'InsufficientFunds although the fee is wrong' });
  }
  judgeAccept(r, c, F) {
    for (const [k, e] of c.E) if (e.must) F.push({ cat: 'accept:' + k + (e.why ? ':' + e.why : ''), msg: `accepted although ${k}${e.why ? ' (' + e.why + ')' : ''} applies` });
    for (const t of c.T) F.push({ cat: 'accept:' + t, msg: `accepted although it must be rejected (${t})` });
  }

  // ---- expected effects ---------------------------------------------------------
  // deltas on {bal: Map key->delta, supply, alw: Map pair->{a,e}, blocks}
  acceptEffect(node, r) {
    const now = node.s.time, fx = { bal: new Map(), alw: new Map(), blocks: [requestBlock(r, now)] };
    const add = (a, n) => fx.bal.set(key(a), (fx.bal.get(key(a)) || 0n) + n);
    const pk = () => key(r.from) + '>' + key(r.spender);
    if (r.kind === 'mint') { add(r.to, r.amount - FEE); return fx; }
    if (r.kind === 'approve') {
      add(r.from, -FEE);
      const a = cap(r.amount);
      fx.alw.set(pk(), { a, e: a === 0n ? null : r.expires });
      return fx;
    }
    add(r.from, -r.amount - FEE);
    if (r.kind === 'xfer') add(r.to, r.amount);
    if (r.third) {
      const cur = this.alw(node.o, r.from, r.spender);
      const a = max0(cur.a - r.amount - FEE);
      fx.alw.set(pk(), { a, e: a === 0n ? null : cur.e });
    }
    return fx;
  }
  // returned: cycles that came back; adds to fx; answers {refund, approval} block offsets
  refundEffect(o, p, returned, now, fx) {
    const rr = max0(returned - FEE);
    const at = { refund: null, approval: null };
    if (rr === 0n) return at;
    const add = (a, n) => fx.bal.set(key(a), (fx.bal.get(key(a)) || 0n) + n);
    add(p.from, rr);
    at.refund = fx.blocks.length;
    fx.blocks.push({ ts: now, fee: 0n, tx: { op: 'mint', to: p.from, amt: rr, fee: 0n, memo: DC } });
    if (p.third && rr > FEE && (p.oldExp === null || now < p.oldExp)) {
      const pk = key(p.from) + '>' + key(p.spender);
      const cur = fx.alw.get(pk) || this.alw(o, p.from, p.spender);
      const a = cap(cur.a + rr - FEE);
      const e = cur.a > 0n ? cur.e : p.oldExp;
      add(p.from, -FEE);
      fx.alw.set(pk, { a, e });
      at.approval = fx.blocks.length;
      fx.blocks.push({ ts: now, fee: FEE, tx: { op: 'approve', from: p.from, spender: p.spender, amt: a, expires_at: e ?? undefined, memo: DC } });
    }
    return at;
  }
  applyFx(node, o, fx, F, what) {
    const named = fx.bal;
    let dsup = 0n;
    for (const d of named.values()) dsup += d;
    this.accounts.forEach((a, i) => {
      const d = named.get(key(a)), got = o.bal[i] - node.o.bal[i];
      if (d === undefined) { if (got !== 0n) F.push({ cat: 'frame', msg: `${what}: the balance of the uninvolved account ${key(a)} changed by ${got}` }); }
      else if (got !== d) F.push({ cat: 'bal', msg: `${what}: the balance of ${key(a)} changed by ${got} instead of ${d}` });
    });
    if (o.supply - node.o.supply !== dsup) F.push({ cat: 'supply', msg: `${what}: the supply changed by ${o.supply - node.o.supply} instead of ${dsup}` });
    this.pairs.forEach(([f, s], i) => {
      const k = key(f) + '>' + key(s), w = fx.alw.get(k), got = o.alw[i];
      if (!w) { const pre = node.o.alw[i]; if (got.a !== pre.a || got.e !== pre.e) F.push({ cat: 'alwframe', msg: `${what}: the uninvolved allowance ${k} changed from ${show(pre)} to ${show(got)}` }); }
      else if (got.a !== w.a || got.e !== w.e) F.push({ cat: 'alw', msg: `${what}: the allowance ${k} is ${show(got)} instead of ${show(w)}` });
    });
  }
  // no account loses cycles without its owner or a sufficient live allowance
  authority(node, o, r, by, F) {
    this.accounts.forEach((a, i) => {
      const lost = node.o.bal[i] - o.bal[i];
      if (lost <= 0n) return;
      if (by !== null && a.owner === by) { if (r && r.from && key(r.from) === key(a)) return; if (r && r.from && key(r.from) !== key(a)) F.push({ cat: 'auth', msg: `${key(a)} lost ${lost} in a call that names ${key(r.from)}` }); else F.push({ cat: 'auth', msg: `${key(a)} lost ${lost}` }); return; }
      if (r && r.third && key(r.from) === key(a) && r.spender.owner === by) {
        const cur = this.alw(node.o, r.from, r.spender);
        if (cur.a >= lost) return;
        F.push({ cat: 'auth', msg: `${key(a)} lost ${lost} to a spender whose live allowance was ${cur.a}` });
        return;
      }
      F.push({ cat: 'auth', msg: `${key(a)} lost ${lost} in a call by ${by}` });
    });
  }

  storeAfter(g, fx) { // what may still be stored for a pair, expired or not
    if (!fx.alw.size) return g.store;
    const st = new Map(g.store);
    for (const [k, w] of fx.alw) if (w.a === 0n) st.delete(k); else st.set(k, w);
    return st;
  }

  checkCall(r, made, F) {
    if (made.length !== 1) { F.push({ cat: 'call', msg: `${made.length} outgoing calls instead of 1` }); return; }
    const c = made[0];
    const [callee, method] = r.kind === 'withdraw' ? ['', 'deposit_cycles'] : [CMC, 'create_canister'];
    if (c.callee !== callee || c.method !== method) F.push({ cat: 'call', msg: `called ${c.callee}.${c.method}` });
    if (c.cycles !== r.amount) F.push({ cat: 'call', msg: `${c.cycles} cycles attached instead of ${r.amount}` });
    let a;
    try { a = L.C.decode(c.arg)[0]; } catch (e) { F.push({ cat: 'call', msg: 'argument: ' + e.message }); return; }
    if (r.kind === 'withdraw') { if (a.canister_id !== r.dest) F.push({ cat: 'call', msg: `deposit_cycles names ${a.canister_id} instead of ${r.dest}` }); return; }
    const ws = { ...((r.cargs && r.cargs.settings) || {}) };
    if (ws.controllers === undefined || ws.controllers === null) ws.controllers = [r.by];
    const tidy = x => { if (Array.isArray(x)) return x.map(tidy); if (x === null || typeof x !== 'object') return x; const y = {}; for (const k of Object.keys(x).sort()) if (x[k] !== undefined) y[k] = tidy(x[k]); return y; };
    const strip = x => { const y = tidy(x || {}); for (const k of Object.keys(y)) if (y[k] === null) delete y[k]; return show(y); };
    if (strip(a.settings) !== strip(ws)) F.push({ cat: 'call', msg: `settings ${strip(a.settings)} instead of ${strip(ws)}` });
    const sub = (r.cargs && r.cargs.subnet_selection) || null;
    const s2 = show(a.subnet_selection ?? null);
    if (s2 !== show(sub)) F.push({ cat: 'call', msg: `subnet selection ${s2} instead of ${show(sub)}` });
  }

  failedResponse(m, p, len0, at, code, reason, resp, F) {
    // len0: index of the first block the settlement emits
    const blk = i => (i === null ? null : len0 + BigInt(i));
    const refund = blk(at.refund), approval = blk(at.approval);
    const want = {
      withdraw: ['FailedToWithdraw', { fee_block: refund, rejection_code: { [code]: null } }, 'rejection_reason'],
      withdraw_from: ['FailedToWithdrawFrom', { withdraw_from_block: p.idx, refund_block: refund, approval_refund_block: approval, rejection_code: { [code]: null } }, 'rejection_reason'],
      create_canister: ['FailedToCreate', { fee_block: p.idx, refund_block: refund }, 'error'],
      create_canister_from: ['FailedToCreateFrom', { create_from_block: p.idx, refund_block: refund, approval_refund_block: approval, rejection_code: { [code]: null } }, 'rejection_reason'],
    }[m];
    if (!resp.err || resp.err[0] !== want[0]) { F.push({ cat: 'outcome', msg: `${m} answered ${show(resp)} instead of ${want[0]}` }); return; }
    const got = resp.err[1];
    for (const k of Object.keys(want[1])) if (show(got[k]) !== show(want[1][k])) F.push({ cat: 'outcome', msg: `${m} ${want[0]}.${k} is ${show(got[k])} instead of ${show(want[1][k])}` });
    if (reason !== null && !String(got[want[2]]).includes(reason)) F.push({ cat: 'outcome', msg: `${m} ${want[0]}.${want[2]} is ${show(got[want[2]])}; the failure was ${show(reason)}` });
  }

  // ---- one step -------------------------------------------------------------------
  step(node, op) {
    const F = [];
    try {
      this.unlike.length = 0;
      const r = this.step1(node, op, F);
      for (const x of this.unlike) F.push({ cat: 'interface', msg: x });
      const by = op.settle !== undefined ? node.g.pending[op.settle] : op;
      if (F.length) for (const f of F) f.op = (by && by.m) || Object.keys(op)[0];
      return { ...r, findings: F };
    } catch (e) {
      if (!(e instanceof QueryTrap)) throw e;
      F.push({ cat: 'query', msg: e.message });
      return { node, findings: F, resp: { trap: e.message } };
    }
  }
  encode(op) {
    let e = this.encOps.get(op);
    if (!e) this.encOps.set(op, e = { arg: this.bytes(op.m, op.a, op.enc, op.wrong), r: request(op) });
    return e;
  }
  bytes(m, a, enc, wrong) {
    if (!enc && !wrong) return L.encArgs(m, a);
    const did = this.opts.iface, T = did.methods[m].args.map(t => D.plainType(did, t)), v = T.length ? [a] : [];
    return enc ? D.encode(T, v, enc) : D.wrong(T, v).find(([k]) => k === wrong)[1];
  }
  // every balance, every allowance and every block against the log
  audit(node, F) {
    this.sim.lax = true;
    try { return this.audit1(node, F); } finally { this.sim.lax = false; }
  }
  audit1(node, F) {
    const { s, o, g } = node;
    const split = k => { const [owner, sub] = k.split('.'); return { owner, subaccount: sub || null }; };
    let n = 0;
    const bad = (cat, msg) => { if (n++ < 5) F.push({ cat, msg }); };
    for (const [k, w] of g.rep.bal) { const b = this.q(s, 'icrc1_balance_of', L.enc('icrc1_balance_of', split(k))); if (b !== w) bad('replay', `replaying the block log gives ${k} ${w}; reported ${b}`); }
    for (const [k, w0] of g.rep.alw) {
      const [f, sp] = k.split('>'), w = liveAt(w0, s.time);
      const x = this.q(s, 'icrc2_allowance', L.enc('icrc2_allowance', { account: split(f), spender: split(sp) }));
      if (w.a !== x.allowance || w.e !== x.expires_at) bad('replay', `replaying the block log gives the allowance ${k} ${show(w)}; reported ${show(x)}`);
    }
    if (this.opts.fullLog) this.wholeLog(s, o, g, F);
    return { node, resp: { ok: null }, changed: false };
  }
  // a query in every encoding of its argument, and in some that are none
  ask(node, op, F) {
    const { ask: m, a, by } = op, s = node.s, did = this.opts.iface;
    const T = did.methods[m].args.map(t => D.plainType(did, t)), v = T.length ? [a] : [];
    const want = show(this.q(s, m, L.encArgs(m, a), by));
    for (const k of Object.keys(D.MODES)) {
      const r = L.queryEnc(this.sim, s, m, D.encode(T, v, k), by);
      if (r.reject || show(r.ok) !== want) F.push({ cat: 'encoding', msg: `${m} with its argument encoded ${k} gives ${r.reject ? 'a rejection: ' + r.msg : show(r.ok)} instead of ${want}` });
    }
    if (T.length) for (const [k, e] of D.wrong(T, v)) {
      const r = this.sim.query(s, m, e, by);
      if (!r.reject) F.push({ cat: 'encoding', msg: `${m} answers an argument that is not of its type (${k})` });
    }
    return { node, resp: { ok: null }, changed: false };
  }
  step1(node, op, F) {
    this.cur = node.s; this.extra = new Map();
    if (op.adv !== undefined) return this.advance(node, op, F);
    if (op.upgrade !== undefined) return this.doUpgrade(node, op, F);
    if (op.settle !== undefined) return this.settle(node, op, F);
    if (op.bulk !== undefined) return this.bulk(node, op, F);
    if (op.get !== undefined) return this.getBlocks(node, op, F);
    if (op.list !== undefined) return this.list(node, op, F);
    if (op.ask !== undefined) return this.ask(node, op, F);
    if (op.audit !== undefined) return this.audit(node, F);
    const r = this.call(node, op, F);
    if (node.g.pre && !op.faults) {
      this.sameAsBefore(node.g.pre, op, r, F);
      if (r.changed && r.node) r.node.g = { ...r.node.g, pre: null };
    }
    return r;
  }

  // the first operation after an upgrade does what it would have done without
  sameAsBefore(pre, op, r, F) {
    const { sim } = this, { arg } = this.encode(op);
    const x = sim.update(pre.s, { method: op.m, caller: op.by, arg, cycles: op.cyc || 0n });
    const resp = this.decode(op, x.response), bad = (a, b) => F.push({ cat: 'upgraded', msg: `after an upgrade ${op.m} gives ${a}; without it ${b}` });
    const same = resp.trap !== undefined ? r.resp.trap !== undefined : show(resp) === show(r.resp);
    if (!same) { bad(show(r.resp), show(resp)); return; }
    if (!r.changed || !r.node || (resp.ok === undefined && !resp.pending)) return;
    const s = sim.keep(x.state), o = this.observe(s);
    for (const k of Object.keys(o)) {
      if (k === 'met') { for (const m of Object.keys(o.met)) if (!/memory/.test(m) && o.met[m] !== r.node.o.met[m]) bad(`${m} ${r.node.o.met[m]}`, o.met[m]); }
      else if (show(o[k]) !== show(r.node.o[k])) bad(`${k} ${show(r.node.o[k])}`, show(o[k]));
    }
    if (s.cert !== r.node.s.cert) bad('other certified data', s.cert);
    const c = z => show(z.calls.map(y => [y.callee, y.method, Buffer.from(y.arg).toString('hex'), y.cycles]));
    if (c(s) !== c(r.node.s)) bad(c(r.node.s), c(s));
  }

  // many requests, all of which must be accepted, judged by their blocks and
  // the final state only
  bulk(node, op, F) {
    const { sim } = this;
    let s = node.s;
    const g0 = { ...node.g, dedup: new Map(node.g.dedup), canon: new Map(node.g.canon), store: new Map(node.g.store) };
    const want = [];
    let at = node.o.len;
    for (const p of op.bulk) {
      const { arg, r } = this.encode(p);
      const x = sim.update(s, { method: p.m, caller: p.by, arg, cycles: p.cyc || 0n });
      const resp = this.decode(p, x.response);
      if (resp.ok === undefined) { F.push({ cat: 'refused', msg: `${p.m} in a row of valid requests got ${show(resp)}` }); sim.live = null; return { node, resp }; }
      s = x.state;
      want.push(requestBlock(r, s.time));
      const keys = dedupKeys(r);
      if (keys) { g0.dedup.set(keys.raw, { idx: at, canister: null, cat: r.cat }); g0.canon.set(keys.canon, [at]); }
      if (r.kind === 'approve') g0.store.set(key(r.from) + '>' + key(r.spender), { a: cap(r.amount), e: r.expires });
      at += 1n;
    }
    sim.keep(s);
    const o = this.observe(s);
    const nb = o.len > node.o.len ? this.blocks(s, node.o.len, o.len) : [];
    const g = this.newBlocks({ ...node, g: g0 }, s, o, nb, want, F);
    this.consistency(s, o, g, F);
    return { node: { s, o, g }, resp: { ok: null }, changed: true };
  }

  // icrc3_get_blocks with several ranges: the requested blocks that exist, in
  // the order asked for, up to max_blocks_per_request in total
  getBlocks(node, op, F) {
    const { s, o, g } = node;
    const r = this.q(s, 'icrc3_get_blocks', L.enc('icrc3_get_blocks', op.get));
    const want = [];
    for (const { start, length } of op.get) for (let i = start; i < start + length && i < o.len && BigInt(want.length) < g.cfg.max; i++) want.push(i);
    const say = show(op.get);
    if (r.log_length !== o.len) F.push({ cat: 'range', msg: `log_length ${r.log_length} instead of ${o.len}` });
    const got = r.blocks.map(b => b.id);
    if (show(got) !== show(want)) F.push({ cat: 'range', msg: `${say} of ${o.len} blocks, at most ${g.cfg.max}: ${got.length} blocks ${show(got).slice(0, 80)} instead of ${want.length} ${show(want).slice(0, 80)}` });
    else if (g.hashes.length) r.blocks.forEach(b => { if (H.valueHash(b.block).toString('hex') !== g.hashes[Number(b.id)]) F.push({ cat: 'range', msg: `${say}: block ${b.id} is not the block of that index` }); });
    if (r.archived_blocks.length) F.push({ cat: 'range', msg: 'there are no archives' });
    return { node, resp: { ok: got.length }, changed: false };
  }

  // icrc103_get_allowances: the owner's live approvals after (from, prev) in
  // the order of accounts, at most take (500)
  list(node, op, F) {
    const { s, g } = node, now = s.time;
    const { from_account, prev_spender, take } = op.list;
    const r = this.q(s, 'icrc103_get_allowances', L.enc('icrc103_get_allowances', op.list), op.by);
    const f = from_account || { owner: op.by, subaccount: null };
    const all = [];
    for (const [k, w] of g.rep.alw) {
      const [fk, sk] = k.split('>');
      const [fo, fs] = fk.split('.'), [so, ss] = sk.split('.');
      if (fo !== f.owner || (w.e !== null && w.e <= now)) continue;
      all.push({ k, ord: order(fo, fs) + order(so, ss), a: w.a, e: w.e });
    }
    all.sort((x, y) => (x.ord < y.ord ? -1 : x.ord > y.ord ? 1 : 0));
    const lo = order(f.owner, f.subaccount || '') + (prev_spender ? order(prev_spender.owner, prev_spender.subaccount || '') : '');
    const lim = take === null || take > 500n ? 500 : Number(take);
    const want = all.filter(x => (prev_spender ? x.ord > lo : x.ord >= lo)).slice(0, lim).map(x => [x.k, x.a, x.e]);
    const got = (r.Ok || []).map(x => [key(x.from_account) + '>' + key(x.to_spender), x.allowance, x.expires_at]);
    if (!r.Ok || show(got) !== show(want)) {
      let i = 0;
      while (i < got.length && show(got[i]) === show(want[i])) i++;
      F.push({ cat: 'listing', msg: `icrc103_get_allowances ${show(op.list)} at ${now}: ${got.length} entries instead of ${want.length}; entry ${i} is ${show(got[i])} instead of ${show(want[i])}` });
    }
    return { node, resp: { ok: got.length }, changed: false };
  }

  decode(op, response) {
    if (!response) return { pending: true };
    if (response.reject) return { trap: response.msg };
    const v = L.decodeReply(op.m, response.reply);
    if (this.opts.iface) this.published(op.m, response.reply);
    if (op.m === 'deposit') return { ok: v };
    if (v.Ok !== undefined) return { ok: v.Ok };
    const k = Object.keys(v.Err)[0];
    return { err: [k, v.Err[k]] };
  }
  tally(op, resp) {
    const k = op.m + ':' + (resp.pending ? 'pending' : resp.trap !== undefined ? 'rejected' : resp.ok !== undefined ? 'Ok' : resp.err[0]);
    this.outcomes.set(k, (this.outcomes.get(k) || 0) + 1);
  }

  call(node, op, F) {
    const { sim } = this;
    const { arg, r } = this.encode(op);
    const c = op.wrong ? { E: new Map(), T: ['wrong'] } : this.conds(node, r);
    sim.faults = op.faults || {};
    const x = sim.update(node.s, { method: op.m, caller: op.by, arg, cycles: op.cyc || 0n });
    sim.faults = {};
    const resp = this.decode(op, x.response);
    this.tally(op, resp);
    const now = node.s.time;
    const async = r.kind === 'withdraw' || r.kind === 'create';
    // a fault on the outgoing call makes an accepted request fail within the same message
    const failedNow = async && op.faults && resp.err && /^FailedTo/.test(resp.err[0]);
    const accepted = resp.pending || resp.ok !== undefined || failedNow;
    if (!accepted) {
      this.judgeRefusal(r, c, resp, F);
      if (x.refund !== (op.cyc || 0n)) F.push({ cat: 'solvency', msg: `a refused call kept ${(op.cyc || 0n) - x.refund} cycles` });
      if (!(c.E.size || c.T.length)) F.push({ cat: 'refused', msg: `${op.m} refused with ${show(resp)} although nothing stands against it` });
      if (resp.trap !== undefined) return { node, resp };
      const s = sim.keep(x.state);
      if (x.made && x.made.length) F.push({ cat: 'noeffect', msg: 'a refused request made an outgoing call' });
      if (s.cert !== node.s.cert) F.push({ cat: 'noeffect', msg: 'a refused request changed the certified data' });
      const sup = this.q(s, 'icrc1_total_supply', this.eNone);
      if (sup !== node.o.supply) F.push({ cat: 'noeffect', msg: `a refused request changed the supply by ${sup - node.o.supply}` });
      if (this.opts.probe) this.runProbe(node, s, op, F);
      if (s.pages === node.s.pages && sup === node.o.supply && s.cert === node.s.cert) return { node, resp };
      const o = this.observe(s);
      if (o.len !== node.o.len) F.push({ cat: 'noeffect', msg: `a refused request added ${o.len - node.o.len} blocks` });
      o.bal.forEach((b, i) => { if (b !== node.o.bal[i]) F.push({ cat: 'noeffect', msg: `a refused request changed the balance of ${key(this.accounts[i])} by ${b - node.o.bal[i]}` }); });
      o.alw.forEach((w, i) => { if (w.a !== node.o.alw[i].a || w.e !== node.o.alw[i].e) F.push({ cat: 'noeffect', msg: 'a refused request changed an allowance' }); });
      this.authority(node, o, r, op.by, F);
      const g = { ...node.g };
      this.consistency(s, o, g, F);
      return { node: { s, o, g }, resp, changed: true };
    }
    this.judgeAccept(r, c, F);
    const s = sim.keep(x.state);
    const o = this.observe(s);
    const fx = this.acceptEffect(node, r);
    const idx = node.o.len;
    const g1 = { ...node.g };
    const p = { m: op.m, kind: r.kind, idx, by: op.by, from: r.from, spender: r.spender, third: r.third, amount: r.amount, oldExp: r.third ? this.alw(node.o, r.from, r.spender).e : null, keys: dedupKeys(r) };
    if (async && !failedNow) {
      if (!resp.pending) F.push({ cat: 'call', msg: `answered ${show(resp)} before the outgoing call returned` });
      this.checkCall(r, x.made, F);
      if (x.made.length) { p.call = x.made[0].id; g1.pending = g1.pending.concat([p]); }
    } else if (x.made.length) F.push({ cat: 'call', msg: `${op.m} made ${x.made.length} outgoing calls` });
    if (async && x.made.length === 0 && s.cycles !== node.s.cycles) F.push({ cat: 'solvency', msg: 'cycles left without an outgoing call' });
    if (failedNow) {
      const at = this.refundEffect(node.o, p, r.amount, now, fx);
      this.failedResponse(op.m, p, idx, at, 'SysTransient', null, resp, F);
    }
    if (r.kind === 'mint') {
      if (resp.ok.block_index !== idx) F.push({ cat: 'index', msg: `deposit answered block ${resp.ok.block_index} instead of ${idx}` });
      if (resp.ok.balance !== this.bal(o, r.to)) F.push({ cat: 'bal', msg: `deposit answered balance ${resp.ok.balance}; it is ${this.bal(o, r.to)}` });
      if (x.refund !== 0n) F.push({ cat: 'solvency', msg: `an accepted deposit returned ${x.refund} cycles` });
    } else if (x.refund !== (op.cyc || 0n) && !resp.pending) F.push({ cat: 'solvency', msg: `${op.m} kept ${(op.cyc || 0n) - x.refund} attached cycles` });
    if (r.kind !== 'mint' && !async) {
      if (resp.ok !== idx) F.push({ cat: 'index', msg: `${op.m} answered block ${resp.ok} instead of ${idx}` });
    }
    this.applyFx(node, o, fx, F, op.m);
    this.authority(node, o, r, op.by, F);
    const nb = o.len > node.o.len ? this.blocks(s, node.o.len, o.len) : [];
    const g2 = this.newBlocks({ ...node, g: g1 }, s, o, nb, fx.blocks, F);
    if (p.keys) {
      g2.dedup = new Map(g2.dedup).set(p.keys.raw, { idx, canister: null, cat: r.cat });
      g2.canon = new Map(g2.canon).set(p.keys.canon, (g2.canon.get(p.keys.canon) || []).concat([idx]));
    }
    g2.store = this.storeAfter(g2, fx);
    const nn = { s, o, g: g2 };
    this.consistency(s, o, g2, F);
    this.pruned(node, nn, F);
    return { node: nn, resp, changed: true };
  }

  // after an accepted request: expired approvals (at least 100 of them) and
  // requests out of the window are reclaimed, and nothing live is
  pruned(pre, post, F) {
    if (!this.opts.metrics) return;
    const now = post.s.time, m = post.o.met, m0 = pre.o.met;
    const count = alw => { let live = 0, timed = 0; for (const w of alw.values()) if (w.e === null || w.e > now) { live++; if (w.e !== null) timed++; } return { live, timed }; };
    const a = count(post.g.rep.alw), stale0 = m0[M.approvals] - count(pre.g.rep.alw).live;
    if (m[M.approvals] < a.live) F.push({ cat: 'prune', msg: `${m[M.approvals]} approvals are stored; ${a.live} are live` });
    if (m[M.expirations] < a.timed) F.push({ cat: 'prune', msg: `${m[M.expirations]} expiration entries; ${a.timed} live approvals expire` });
    const stale = m[M.approvals] - a.live;
    if (stale > Math.max(0, stale0 - 100)) F.push({ cat: 'prune', msg: `${stale} expired approvals remain after an operation that found ${stale0}` });
    if (stale0 - stale > 400) F.push({ cat: 'prune', msg: `one operation reclaimed ${stale0 - stale} expired approvals` });
    if (m[M.expirations] - a.timed > stale) F.push({ cat: 'prune', msg: `${m[M.expirations]} expiration entries for ${a.timed} live approvals that expire and ${stale} expired ones` });
    let win = 0;
    for (const d of post.g.dedup.values()) if (d.cat + WINDOW + DRIFT >= now) win++;
    for (const k of [M.hashes, M.stamps]) if (m[k] !== win) F.push({ cat: 'prune', msg: `${m[k]} ${k}; ${win} accepted requests are within the window` });
  }

  runProbe(node, s, op, F) {
    if (!node.probe) node.probe = this.opts.probe.map(pr => this.probeResult(node.s, pr));
    this.opts.probe.forEach((pr, i) => {
      const b = this.probeResult(s, pr);
      if (b !== node.probe[i]) F.push({ cat: 'noeffect', msg: `after the refused request, ${pr.m} gives ${b}; without it ${node.probe[i]}` });
    });
  }
  probeResult(s, pr) {
    const x = this.sim.update(s, { method: pr.m, caller: pr.by, arg: this.encode(pr).arg, cycles: pr.cyc || 0n });
    const reply = x.response && x.response.reply ? x.response.reply.toString('hex') : show(x.response);
    if (x.trap) return show([reply]);
    this.sim.leaf = true; // nothing continues from here
    try {
      const o = this.observe(x.state), met = this.metrics(x.state);
      return show([reply, o.bal, o.alw, o.supply, o.len, x.state.cert, Object.values(M).map(k => met[k])]);
    } finally { this.sim.leaf = false; }
  }

  advance(node, op, F) {
    const s = this.sim.at(node.s, node.s.time + op.adv);
    if (s !== node.s) { s.mem = node.s.mem; s.memLen = node.s.memLen; }
    const o = this.observe(s);
    o.alw.forEach((w, i) => {
      const x = liveAt(node.o.alw[i].a === 0n ? null : node.o.alw[i], s.time);
      if (w.a !== x.a || w.e !== x.e) F.push({ cat: 'expiry', msg: `at ${s.time} the allowance ${key(this.pairs[i][0])}>${key(this.pairs[i][1])}, ${show(node.o.alw[i])} before, is ${show(w)}` });
    });
    o.bal.forEach((b, i) => { if (b !== node.o.bal[i]) F.push({ cat: 'frame', msg: 'a balance changed with time' }); });
    if (o.supply !== node.o.supply || o.len !== node.o.len) F.push({ cat: 'frame', msg: 'supply or log changed with time' });
    const g = { ...node.g };
    if (g.pre) {
      const q = this.sim.at(g.pre.s, s.time);
      if (q !== g.pre.s) { q.mem = g.pre.s.mem; q.memLen = g.pre.s.memLen; }
      g.pre = { ...g.pre, s: q };
    }
    this.consistency(s, o, g, F);
    return { node: { s, o, g }, resp: { ok: null }, changed: true };
  }

  doUpgrade(node, op, F) {
    if (node.s.calls.length) return { node: null, resp: {} };
    const LA = () => D.plainType(this.opts.iface, this.opts.iface.init[0]);
    const up = op.adopt ? 'adopt' : 'upgrade';
    const x = this.sim[up](node.s, op.raw ? op.raw : op.enc ? D.encode([LA()], [{ Upgrade: op.upgrade }], op.enc) : L.upgradeArg(op.upgrade));
    const change = op.raw ? null : op.upgrade;
    if (op.bad) { // an argument that must be refused
      if (!x.trap) F.push({ cat: 'upgrade', msg: 'an upgrade with an init argument was accepted' });
      return { node, resp: { trap: x.trap } };
    }
    if (x.trap) { F.push({ cat: 'upgrade', msg: 'the upgrade trapped: ' + x.trap }); return { node, resp: { trap: x.trap } }; }
    const s = this.sim.keep(x.state);
    const o = this.observe(s);
    const g = { ...node.g };
    g.pre = op.adopt ? null : node;
    if (op.adopt) g.adopted = true;
    if (change) {
      g.cfg = { ...g.cfg };
      if (change.max_blocks_per_request != null) g.cfg.max = change.max_blocks_per_request;
      if (change.change_index_id) g.cfg.index = change.change_index_id.SetTo ?? null;
    }
    const skip = new Set(['met']);
    for (const k of Object.keys(o)) if (!skip.has(k) && show(o[k]) !== show(node.o[k])) F.push({ cat: 'upgrade', msg: `an upgrade changed ${k} from ${show(node.o[k])} to ${show(o[k])}` });
    if (o.met) for (const k of Object.keys(o.met)) if (o.met[k] !== node.o.met[k]) F.push({ cat: 'upgrade', msg: `an upgrade changed ${k} from ${node.o.met[k]} to ${o.met[k]}` });
    if (s.cert !== node.s.cert) F.push({ cat: 'upgrade', msg: 'an upgrade changed the certified data' });
    this.config(s, g, F);
    if (this.opts.fullLog === 'upgrade') this.wholeLog(s, o, g, F);
    this.consistency(s, o, g, F);
    return { node: { s, o, g }, resp: { ok: null }, changed: true };
  }
  config(s, g, F) {
    const md = new Map(this.q(s, 'icrc1_metadata', this.eNone));
    const mx = md.get('dfn:max_blocks_per_request');
    if (!mx || mx.Nat !== g.cfg.max) F.push({ cat: 'config', msg: `max_blocks_per_request is ${show(mx)} instead of ${g.cfg.max}` });
    const ix = this.q(s, 'icrc106_get_index_principal', this.eNone);
    if ((ix.Ok ?? null) !== g.cfg.index) F.push({ cat: 'config', msg: `the index principal is ${show(ix)} instead of ${g.cfg.index}` });
    const mi = md.get('dfn:index_id');
    if ((mi ? mi.Blob : null) !== g.cfg.index) F.push({ cat: 'config', msg: `metadata gives the index ${show(mi)} instead of ${g.cfg.index}` });
    const mp = md.get('icrc106:index_principal');
    if ((mp ? mp.Text : null) !== (g.cfg.index === null ? null : principalText(g.cfg.index))) F.push({ cat: 'config', msg: `metadata gives the index principal ${show(mp)} instead of ${g.cfg.index}` });
    this.facts(s, md, F);
  }
  // what the ledger says about itself agrees with itself and with what it does
  facts(s, md, F) {
    const f = m => this.q(s, m, this.eNone);
    const same = (what, a, b) => { if (show(a) !== show(b)) F.push({ cat: 'facts', msg: `${what}: ${show(a)} and ${show(b)}` }); };
    const v = k => { const x = md.get(k); return x ? Object.values(x)[0] : null; };
    same('icrc1_fee and the fee charged', f('icrc1_fee'), FEE);
    same('metadata and the fee charged', v('icrc1:fee'), FEE);
    same('metadata and icrc1_decimals', v('icrc1:decimals'), BigInt(f('icrc1_decimals')));
    same('metadata and icrc1_name', v('icrc1:name'), f('icrc1_name'));
    same('metadata and icrc1_symbol', v('icrc1:symbol'), f('icrc1_symbol'));
    same('metadata and the longest memo', v('icrc1:max_memo_length'), 32n);
    same('minting account', f('icrc1_minting_account') ?? null, null);
    const std = f('icrc1_supported_standards');
    same('icrc1_supported_standards and icrc10_supported_standards', std, f('icrc10_supported_standards'));
    for (const n of ['ICRC-1', 'ICRC-2', 'ICRC-3', 'ICRC-10', 'ICRC-103', 'ICRC-106']) if (!std.some(x => x.name === n)) F.push({ cat: 'facts', msg: `standard ${n} is not listed` });
    const names = new Set();
    for (const x of std) {
      if (names.has(x.name)) F.push({ cat: 'facts', msg: `standard ${x.name} is listed twice` });
      names.add(x.name);
      const about = (x.url.match(/ICRC-\d+/g) || []).pop(); // the document named last
      if (about !== undefined && about !== x.name) F.push({ cat: 'facts', msg: `the document of ${x.name} is ${x.url}` });
    }
    const types = new Set(f('icrc3_supported_block_types').map(x => x.block_type));
    for (const n of ['1mint', '1burn', '1xfer', '2xfer', '2approve']) if (!types.has(n)) F.push({ cat: 'facts', msg: `blocks of type ${n} are in the log; icrc3_supported_block_types does not list it` });
    const ar = this.q(s, 'icrc3_get_archives', L.enc('icrc3_get_archives', { from: null }));
    if (ar.length) F.push({ cat: 'facts', msg: 'there are no archives' });
  }

  settle(node, op, F) {
    const p = node.g.pending[op.settle];
    if (!p) return { node: null, resp: {} };
    let out = op.out;
    const create = p.kind === 'create';
    const call = node.s.calls.find(x => x.id === p.call);
    if (call.bounded && out.reject) F.push({ cat: 'outcome', msg: `${p.m} waits a bounded time for its call; after that nobody knows whether it delivered, and the cycles are gone` });
    if (p.third) this.alw(node.o, p.from, p.spender);
    if (create !== (out.create !== undefined) && !out.reject && !out.garbage) return { node: null, resp: {} };
    let o1, returned = null, code = null, reason = null, canister = null;
    const back = out.reject && call.bounded ? 0n : out.back === undefined || !create ? p.amount : typeof out.back === 'string' ? max0(p.amount - BigInt(out.back)) : out.back; // what a failed call brings back
    if (back > p.amount) return { node: null, resp: {} };
    let from0 = node.s;
    if (out.reject && call.bounded) out = { ...out, reject: 6 };
    if (out.reject) { o1 = { reject: out.reject, msg: out.msg || 'no', refund: back }; returned = back; code = { 1: 'SysFatal', 2: 'SysTransient', 3: 'DestinationInvalid', 4: 'CanisterReject', 5: 'CanisterError', 6: 'Unknown' }[out.reject] || 'Unknown'; reason = o1.msg; }
    else if (out.garbage) { if (!create) return { node: null, resp: {} }; o1 = { reply: Buffer.from('nonsense'), refund: back }; returned = back; code = 'CanisterError'; }
    else if (create) {
      if (out.create.ok) { o1 = { reply: L.cmcReply({ Ok: out.create.ok }), refund: 0n }; canister = out.create.ok; }
      else if (out.create.refunded !== undefined) {
        returned = out.create.refunded === 'all' ? p.amount : typeof out.create.refunded === 'string' ? max0(p.amount - BigInt(out.create.refunded)) : out.create.refunded;
        if (returned > p.amount) return { node: null, resp: {} };
        reason = 'quota';
        o1 = { reply: L.cmcReply({ Err: { Refunded: { refund_amount: returned, create_error: 'quota' } } }), refund: out.apart ? 0n : returned };
        if (out.apart) from0 = this.sim.derive(node.s, { cycles: node.s.cycles + returned }); // sent back by a deposit of its own
        code = 'CanisterError';
      } else { returned = 0n; o1 = { reply: L.cmcReply({ Err: { RefundFailed: { create_error: 'quota', refund_error: 'lost' } } }), refund: 0n }; code = 'CanisterError'; reason = 'quota'; }
    } else o1 = { reply: L.emptyReply, refund: 0n };
    const x = this.sim.deliver(from0, p.call, o1);
    const resp = this.decode({ m: p.m }, x.response);
    this.tally({ m: p.m + '/settled' }, resp);
    const now = node.s.time;
    const g1 = { ...node.g, pending: node.g.pending.filter(y => y !== p) };
    const fx = { bal: new Map(), alw: new Map(), blocks: [] };
    if (x.trap !== null && x.trap !== undefined) F.push({ cat: 'settle', msg: `the callback of ${p.m} trapped: ${x.trap}` });
    if (x.made.length) F.push({ cat: 'call', msg: 'a callback made another outgoing call' });
    if (resp.pending) F.push({ cat: 'settle', msg: 'no response after the outgoing call returned' });
    if (returned === null) {
      const want = create ? { block_id: p.idx, canister_id: canister } : p.idx;
      if (resp.ok === undefined || show(resp.ok) !== show(create ? { block_id: resp.ok.block_id, canister_id: resp.ok.canister_id } : resp.ok)) F.push({ cat: 'outcome', msg: `${p.m} answered ${show(resp)} instead of Ok ${show(want)}` });
      else if (create ? resp.ok.block_id !== p.idx || resp.ok.canister_id !== canister : resp.ok !== p.idx) F.push({ cat: 'outcome', msg: `${p.m} answered ${show(resp.ok)} instead of ${show(want)}` });
      if (p.keys && create && g1.dedup.has(p.keys.raw) && g1.dedup.get(p.keys.raw).idx === p.idx) g1.dedup = new Map(g1.dedup).set(p.keys.raw, { ...g1.dedup.get(p.keys.raw), canister });
    } else {
      const at = this.refundEffect(node.o, p, returned, now, fx);
      this.failedResponse(p.m, p, node.o.len, at, code, reason, resp, F);
    }
    const s = this.sim.keep(x.state);
    const o = this.observe(s);
    this.applyFx(node, o, fx, F, p.m + ' settled');
    this.authority(node, o, null, null, F);
    const nb = o.len > node.o.len ? this.blocks(s, node.o.len, o.len) : [];
    const g2 = this.newBlocks({ ...node, g: g1 }, s, o, nb, fx.blocks, F);
    g2.store = this.storeAfter(g2, fx);
    this.consistency(s, o, g2, F);
    // a lost callback also leaves less for the owner than documented
    if (x.trap) for (const f of [...F]) if (f.cat === 'bal') { F.push({ cat: 'settle', msg: f.msg }); break; }
    return { node: { s, o, g: g2 }, resp, changed: true };
  }

  key(node) { // identity of a state for the search: what its future depends on
    const { s, o, g } = node;
    const [a, b] = this.sim.stableKey(s, LOGMEM);
    const h = H.sha(Buffer.from(show([a, b, o.len, o.supply, s.time, s.cycles, g.cfg, g.pending.map(p => [p.m, p.idx, p.call, p.amount, p.oldExp]), [...g.dedup].map(([k, d]) => [k, d.idx, d.canister]), this.opts.fullLog ? g.tip : '', s.cert !== null])));
    return [h.readUInt32LE(0), h.readUInt32LE(4)];
  }
}
function principalText(hex) { // CRC-32 then base32 in groups of five
  const b = Buffer.from(hex, 'hex');
  let crc = ~0;
  for (const x of b) { crc ^= x; for (let i = 0; i < 8; i++) crc = crc & 1 ? (crc >>> 1) ^ 0xedb88320 : crc >>> 1; }
  const c = Buffer.alloc(4); c.writeUInt32BE(~crc >>> 0);
  let bits = '', out = '';
  for (const x of Buffer.concat([c, b])) bits += x.toString(2).padStart(8, '0');
  for (let i = 0; i < bits.length; i += 5) out += 'abcdefghijklmnopqrstuvwxyz234567'[parseInt(bits.slice(i, i + 5).padEnd(5, '0'), 2)];
  return out.match(/.{1,5}/g).join('-');
}
const order = (o, sub) => (o.length / 2).toString(16).padStart(2, '0') + o.padEnd(58, '0') + (sub || '').padStart(64, '0');
function liveAt(w, now) { return w && (w.e === null || w.e > now) ? { a: w.a, e: w.e } : { a: 0n, e: null }; }
class QueryTrap extends Error { constructor(m, msg) { super(`query ${m} was rejected: ${msg}`); } }

module.exports = { World, FEE, U128, U64MAX, WINDOW, DRIFT, CMC, key, show, request, liveAt, plain, selfAuth };
