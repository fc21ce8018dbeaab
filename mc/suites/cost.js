'use strict';
// What a message costs: accesses to stable memory, where the ledger keeps
// everything that grows. Each operation is executed on a small ledger and on
// one with 16 times as many entries of one kind.
const c = require('./common.js');
const { Sim, L, H, F, T0, P, S, SUB, acc, A, B, C, D, A0, A1, B0, C0, CANISTER, CANISTER2, ANON, op, dep, xfer, appr, from, wd, wdf, cc, ccf, adv, settle, OKW, rej, okc, refunded, show } = c;
const { WINDOW, DRIFT } = require('../lib/world.js');
const sp = i => acc(P(0x1000 + i));
const U128 = 1n << 128n;
const SIZES = { quick: [400, 3200], thorough: [400, 8000] };
const many = (n, f) => Array.from({ length: n }, (_, i) => f(i));
const KINDS = {
  accounts: n => many(n, i => xfer(A0, sp(i), 1n)),
  subaccounts: n => many(n, i => xfer(A0, acc(A, SUB(i + 1)), 1n)),
  blocks: n => many(n, i => (i % 2 ? xfer(A0, B0, 1n) : xfer(B0, A0, 1n))),
  approvals: n => many(n, i => appr(A0, sp(i), F)),
  'expiring approvals': n => many(n, i => appr(A0, sp(i), F, { expires_at: T0 + 10n * WINDOW + BigInt(i) })),
  'expired approvals': n => many(n, i => appr(A0, sp(i), F, { expires_at: T0 + 1n })),
  'recognised requests': n => many(n, i => xfer(A0, B0, BigInt(i), { created_at_time: T0 })),
  'requests over the window': n => many(n, i => xfer(A0, B0, 1n, { created_at_time: T0 + BigInt(i) })),
  'open withdrawals': n => many(Math.min(n, 1000), i => wd(A0, CANISTER, F + BigInt(i))),
};
exports.cost = env => {
  const [small, large] = SIZES[env.tier] || SIZES.quick;
  const sims = [new Sim(env.modules.ledger), new Sim(env.modules.ledger)];
  const outcomes = new Map();
  const enc = new Map();
  const bytes = o => { let e = enc.get(o); if (!e) enc.set(o, e = L.encArgs(o.m || o.ask, o.a)); return e; };
  // the same request about the last entries of a ledger of size n
  const lasts = new Map();
  function last(o, n) {
    const k = `${n} ${o.ask || o.m} ${o.last}`;
    let r = lasts.get(k);
    if (r) return r;
    const m = o.ask || o.m;
    if (o.last === 'page') r = { ask: m, by: o.by, a: { ...o.a, prev_spender: sp(n - 30) } };
    else if (o.last === 'block') r = { ask: m, by: o.by, a: [{ start: BigInt(n - 5), length: 3n }, { start: BigInt(n - 60), length: 7n }] };
    else if (o.last === 'account') r = { ask: m, by: o.by, a: sp(n - 1) };
    else if (o.last === 'spender') r = { ...o, last: undefined, a: { ...o.a, spender: sp(n - 1) } };
    else r = { ...o, last: undefined, a: { ...o.a, to: sp(n - 1) } };
    lasts.set(k, r);
    return r;
  }
  const h = H.sha(Buffer.from('cost')).readUInt32LE(0);
  const kinds = Object.keys(KINDS);
  // executes on one ledger: {s, kind of answer, cost}
  function one(sim, s, o, accounts, n) {
    const before = sim.io;
    if (o.last) o = last(o, n);
    if (o.adv) { const n = sim.at(s, s.time + o.adv); n.mem = s.mem; n.memLen = s.memLen; return { s: n, r: 'time', cost: 0 }; }
    if (o.upgrade !== undefined) {
      if (s.calls.length) return null;
      const x = sim.upgrade(s, L.upgradeArg(null));
      // the first message after an upgrade adds up the balances, by design
      const first = xfer(C0, B0, 1n << 130n), y = sim.update(x.state, { method: first.m, caller: first.by, arg: bytes(first), cycles: 0n });
      return { s: y.state, r: x.trap || 'ok', cost: accounts ? 0 : sim.io - before };
    }
    if (o.ask) { const r = sim.query(s, o.ask, bytes(o), o.by); return { s, r: r.reject ? 'rejected ' + r.msg : 'ok', cost: sim.io - before }; }
    if (o.settle !== undefined) {
      if (!s.calls.length) return null;
      const k = s.calls[s.calls.length - 1];
      if ((k.method === 'create_canister') !== !!o.out.create && !o.out.reject) return null;
      const x = sim.deliver(s, k.id, o.out.reject ? { reject: o.out.reject, msg: '' } : o.out.create ? { reply: L.cmcReply({ Ok: CANISTER2 }), refund: 0n } : { reply: L.emptyReply, refund: 0n });
      return { s: x.state, r: x.trap || 'ok', cost: sim.io - before };
    }
    const x = sim.update(s, { method: o.m, caller: o.by, arg: bytes(o), cycles: o.cyc || 0n });
    const cost = sim.io - before;
    let r = 'pending';
    if (x.response) { if (x.response.reject) r = 'rejected'; else { const v = L.decodeReply(o.m, x.response.reply); r = v && v.Err ? Object.keys(v.Err)[0] : 'ok'; } }
    return { s: x.trap ? s : x.state, r, cost };
  }
  return {
    depth: env.tier === 'thorough' ? 3 : 2, starts: kinds.length, merge: true,
    note: `a ledger with ${small} and one with ${large} accounts, subaccounts, blocks, approvals (live, expiring, expired), recognised requests, requests leaving the window or open withdrawals (at most 1000): every kind of call, query, settlement and upgrade may use at most a few times as many accesses to stable memory on the larger as on the smaller`,
    init(i) {
      const nodes = [small, large].map((n, j) => {
        const sim = sims[j], x = sim.install(L.initArg({}), { time: T0, cycles: 10n ** 18n });
        if (x.trap !== undefined) throw new Error(x.trap);
        let s = x.state;
        for (const o of [dep(A0, 200000n * F), dep(A1, 2000n * F), dep(B0, 200000n * F), appr(A0, B0, 2000n * F), appr(A1, B0, 2000n * F, { expires_at: T0 + 5n * WINDOW }), xfer(A1, C0, 1n, { created_at_time: T0 }), ...KINDS[kinds[i]](n)]) {
          const y = sim.update(s, { method: o.m, caller: o.by, arg: bytes(o), cycles: o.cyc || 0n });
          if (y.trap) throw new Error(`${kinds[i]}: ${y.trap}`);
          s = y.state;
        }
        s = sim.at(s, T0 + 2n);
        return sim.keep(s);
      });
      return { node: { i, s: nodes }, findings: [], resp: { ok: null } };
    },
    alphabet(node, d) {
      const now = node.s[0].time, k = { created_at_time: now };
      const ask = (m, a, by = ANON) => op({ ask: m, a, by });
      const ops = [dep(A0, 3n * F), dep(acc(P(9)), 3n * F), xfer(A0, B0, 5n), xfer(A1, A0, F, k), xfer(A1, C0, 1n, { created_at_time: T0 }), xfer(A0, B0, U128), xfer(A0, acc(P(0xffffff)), 1n),
        appr(A1, B0, 7n * F), appr(A1, C0, F, { expires_at: now + 5n }), appr(A0, sp(7), 0n), appr(A0, sp(3), 9n, { ...k, expected_allowance: F }), appr(A0, B0, F, { expected_allowance: 1n }),
        from(B0, A1, C0, F), from(B0, A0, B0, F, k), from(C0, A0, C0, F), wd(A1, CANISTER, F, k), wdf(B0, A1, CANISTER, 3n * F), cc(A1, F), ccf(B0, A0, 3n * F, k),
        settle(0, rej(4)), settle(0, OKW), settle(0, okc(CANISTER2)), { upgrade: null }];
      if (d === 0) ops.push(adv(5n));
      // requests out of the window are dropped up to 100000 at a time, expired approvals skipped by listings, by design
      const requests = /request/.test(kinds[node.i]), expired = kinds[node.i] === 'expired approvals' || now > T0 + WINDOW;
      if (d === 0 && !requests) ops.push(adv(WINDOW + DRIFT), adv(WINDOW + DRIFT + 60n), adv(11n * WINDOW));
      ops.push(ask('icrc1_balance_of', A0), ask('icrc1_balance_of', sp(5)), ask('icrc2_allowance', { account: A0, spender: sp(5) }), ask('icrc1_total_supply', null), ask('icrc3_get_tip_certificate', null), ask('icrc1_metadata', null),
        ask('icrc3_get_blocks', [{ start: 0n, length: 10n }]), ask('icrc3_get_blocks', [{ start: 60n, length: U128 }]), ask('http_request', { url: '/metrics', method: 'GET', body: '', headers: [] }),
        ask('icrc103_get_allowances', { from_account: A1, prev_spender: null, take: 5n }), ...(expired ? [] : [A0]).map(a => ask('icrc103_get_allowances', { from_account: a, prev_spender: sp(40), take: 20n })));
      const last = (what, m, a, by = ANON) => op({ ask: m, a, by, last: what });
      ops.push(last('block', 'icrc3_get_blocks', null), last('account', 'icrc1_balance_of', null), last('spender', 'icrc2_allowance', { account: A0 }), { ...xfer(A0, A0, 1n), last: 'to' }, { ...appr(A0, A1, 5n), last: 'spender' });
      if (!expired) ops.push(last('page', 'icrc103_get_allowances', { from_account: A0, take: 20n }));
      return ops;
    },
    step(node, o) {
      const F1 = [];
      const x = [0, 1].map(j => one(sims[j], node.s[j], o, /account/.test(kinds[node.i]), j ? large : small));
      if (!x[0] || !x[1]) return { node: null, resp: {}, findings: [] };
      const [a, b] = x, what = o.m || o.ask || Object.keys(o)[0];
      outcomes.set(what + ':' + b.r, (outcomes.get(what + ':' + b.r) || 0) + 1);
      if (process.env.MC_COST) console.log(kinds[node.i], what, a.r, b.r, a.cost, b.cost, (b.cost / (a.cost + 1)).toFixed(2));
      if (b.cost > 2.5 * a.cost + 400) F1.push({ cat: 'cost', msg: `${what} (${b.r}) takes ${b.cost} accesses to stable memory on a ledger with ${large} ${kinds[node.i]}, ${a.cost} on one with ${small}` });
      if (a.r !== b.r) F1.push({ cat: 'cost', msg: `${what} is answered ${b.r} on a ledger with ${large} ${kinds[node.i]}, ${a.r} on one with ${small}` });
      if (o.ask) return { node, resp: { ok: b.r }, findings: F1, changed: false };
      const s = [0, 1].map(j => sims[j].keep(x[j].s));
      return { node: { i: node.i, s }, resp: { ok: b.r, cost: [a.cost, b.cost] }, findings: F1, changed: s[0] !== node.s[0] };
    },
    key(node) { const k = node.s.map(s => sims[0].stableKey(s, new Set([1, 2])).concat([String(s.time), String(s.cycles), s.calls.length, s.cert])); const d = H.sha(Buffer.from(show([k, node.i]))); return [d.readUInt32LE(0) ^ h, d.readUInt32LE(4)]; },
    digest(r) { return H.sha(Buffer.from(show([r.resp, r.node && r.node.s.map(s => [s.cert, String(s.cycles)])]))).toString('hex').slice(0, 24); },
    outcomes: () => outcomes, reset() { outcomes.clear(); for (const s of sims) s.count = { messages: 0, queries: 0, traps: 0 }; },
    counts: () => ({ messages: sims[0].count.messages + sims[1].count.messages, queries: sims[0].count.queries + sims[1].count.queries }),
  };
};
