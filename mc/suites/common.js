'use strict';
const { Sim } = require('../lib/ic.js');
const L = require('../lib/ledger.js');
const W = require('../lib/world.js');
const H = require('../lib/hash.js');
const { World, FEE, key, show } = W;
const F = FEE;
const T0 = 1_700_000_000_000_000_000n;

// opaque (canister) principals
const P = n => '0000000000' + n.toString(16).padStart(6, '0') + '0101';
const acc = (owner, sub = null) => ({ owner, subaccount: sub });
const S = b => b.toString(16).padStart(2, '0').repeat(32);
const SUB = (n) => n.toString(16).padStart(64, '0');
const ZERO = SUB(0);
const A = P(0xa), B = P(0xb), C = P(0xc), D = P(0xd);
const A0 = acc(A), A1 = acc(A, S(1)), A2 = acc(A, SUB(2)), B0 = acc(B), B1 = acc(B, SUB(1)), C0 = acc(C), D0 = acc(D);
const CANISTER = P(0x77), CANISTER2 = P(0x78);
const SELF_AUTH = 'ab'.repeat(28) + '02';
const ANON = '04', MGMT = '';

// ---- operations -----------------------------------------------------------------
const pool = new Map();
function op(o) { // one object per operation: its encoding is kept
  const k = show(o);
  let x = pool.get(k);
  if (!x) { if (pool.size > 200000) pool.clear(); pool.set(k, x = o); }
  return x;
}
const n = null;
const dep = (to, cyc, x = {}) => op({ m: 'deposit', by: D, cyc, a: { to, memo: n, ...x } });
const xfer = (from, to, amount, x = {}) => op({ m: 'icrc1_transfer', by: from.owner, a: { from_subaccount: from.subaccount, to, amount, fee: n, memo: n, created_at_time: n, ...x } });
const appr = (from, spender, amount, x = {}) => op({ m: 'icrc2_approve', by: from.owner, a: { from_subaccount: from.subaccount, spender, amount, expected_allowance: n, expires_at: n, fee: n, memo: n, created_at_time: n, ...x } });
const from = (spender, f, to, amount, x = {}) => op({ m: 'icrc2_transfer_from', by: spender.owner, a: { spender_subaccount: spender.subaccount, from: f, to, amount, fee: n, memo: n, created_at_time: n, ...x } });
const wd = (f, to, amount, x = {}, y = {}) => op({ m: 'withdraw', by: f.owner, a: { from_subaccount: f.subaccount, to, amount, created_at_time: n, ...x }, ...y });
const wdf = (spender, f, to, amount, x = {}, y = {}) => op({ m: 'withdraw_from', by: spender.owner, a: { spender_subaccount: spender.subaccount, from: f, to, amount, created_at_time: n, ...x }, ...y });
const cc = (f, amount, x = {}, y = {}) => op({ m: 'create_canister', by: f.owner, a: { from_subaccount: f.subaccount, amount, created_at_time: n, creation_args: n, ...x }, ...y });
const ccf = (spender, f, amount, x = {}, y = {}) => op({ m: 'create_canister_from', by: spender.owner, a: { spender_subaccount: spender.subaccount, from: f, amount, created_at_time: n, creation_args: n, ...x }, ...y });
const adv = ns => op({ adv: ns });
const settle = (i, out) => op({ settle: i, out });
const OKW = {}, rej = (c, msg = 'out of luck') => ({ reject: c, msg });
const okc = p => ({ create: { ok: p } }), refunded = x => ({ create: { refunded: x } }), refundFailed = { create: { refundFailed: true } };
// the minting canister takes the cycles and traps later, or sends a refund by a deposit of its own
const kept = (back = 0n) => ({ reject: 5, msg: 'trapped', back }), apart = x => ({ create: { refunded: x }, apart: true });

const pos = xs => [...new Set(xs.filter(x => x >= 0n))];

// ---- a suite over World -----------------------------------------------------------
// def: {world, starts:[{init, time, cycles, ops, cfg}], alphabet(node,d,H), depth:{quick,thorough}, merge, note}
function worldSuite(env, name, def) {
  const sim = new Sim(env.modules.ledger);
  const w = new World(sim, def.world);
  // def.released: histories begin on the released ledger, until {upgrade, adopt}
  const old = def.released ? new World(new Sim(env.modules.released), def.world) : w;
  const at = (node, o) => (node.g.adopted || (o && o.adopt) ? w : old);
  const h = H.sha(Buffer.from(name)).readUInt32LE(0);
  const bal = (node, a) => w.bal(node.o, a), alw = (node, f, s) => w.alw(node.o, f, s).a;
  const depth = typeof def.depth === 'number' ? def.depth : def.depth[env.tier] ?? def.depth.quick;
  const cache = new WeakMap();
  return {
    world: w, depth, starts: def.starts.length, merge: def.merge, note: def.note,
    init(i) {
      const st = def.starts[i];
      const ini = st.init || {};
      const x = old.sim.install(st.rawInit || L.initArg(ini), { time: st.time ?? T0, cycles: st.cycles ?? 10n ** 16n });
      if (x.trap !== undefined) return { node: null, findings: st.initTraps ? [] : [{ cat: 'init', msg: 'installation trapped: ' + x.trap }], resp: { trap: x.trap } };
      if (st.initTraps) return { node: null, findings: [{ cat: 'init', msg: 'installation should have been refused' }], resp: {} };
      let r = old.start(x.state, { cfg: { max: ini.max_blocks_per_request ?? 100n, index: ini.index_id ?? null }, initial: (ini.initial_balances || []).map(t => [t[0], t[1]]) });
      r.node.g.tag = i;
      const judged = f => (def.released ? [] : f); // the released ledger itself is not judged
      const findings = judged(r.findings).slice();
      if (!def.released) w.config(r.node.s, r.node.g, findings);
      let node = r.node, resp = { ok: null };
      for (const o of (typeof st.ops === 'function' ? st.ops() : st.ops) || []) {
        const p = typeof o === 'function' ? o(node) : o;
        r = at(node, p).step(node, p);
        if (!r.node) throw new Error(`${name}: start operation ${show(p)} does not apply`);
        findings.push(...judged(r.findings));
        if (st.expectOk !== false && (r.resp.err || r.resp.trap)) findings.push({ cat: 'refused', msg: `start ${show(p)}: ${show(r.resp)}` });
        node = r.node; resp = r.resp;
      }
      return { node, findings, resp };
    },
    alphabet(node, d) {
      let a = cache.get(node);
      if (!a) cache.set(node, a = def.alphabet(node, d, { bal: x => bal(node, x), alw: (f, s) => alw(node, f, s), now: node.s.time, pending: node.g.pending }));
      return a;
    },
    step(node, o, leaf) { const v = at(node, o); v.sim.leaf = !!leaf && !def.world.probe && !def.world.exits; try { const r = v.step(node, o); return v === w ? r : { ...r, findings: [] }; } finally { v.sim.leaf = false; } },
    key(node) { const [x, y] = w.key(node); return [x ^ h, y]; },
    digest(r) { const nd = r.node; return H.sha(Buffer.from(show([r.resp, nd && nd.o, nd && nd.s.cert, nd && String(nd.s.cycles)]))).toString('hex').slice(0, 24); },
    outcomes: () => w.outcomes, reset: () => { w.outcomes.clear(); sim.count = { messages: 0, queries: 0, traps: 0 }; }, counts: () => sim.count,
  };
}

module.exports = { Sim, L, W, H, World, FEE, F, T0, P, acc, S, SUB, ZERO, A, B, C, D, A0, A1, A2, B0, B1, C0, D0, CANISTER, CANISTER2, SELF_AUTH, ANON, MGMT, op, dep, xfer, appr, from, wd, wdf, cc, ccf, adv, settle, OKW, rej, okc, refunded, refundFailed, kept, apart, pos, worldSuite, key, show };
