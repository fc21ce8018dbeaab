'use strict';
// Suites about many approvals, listings, installation, upgrades, refused requests.
const c = require('./common.js');
const { F, T0, P, S, SUB, ZERO, acc, A, B, C, D, A0, A1, A2, B0, B1, C0, D0, CANISTER, CANISTER2, SELF_AUTH, ANON, MGMT, L, op, dep, xfer, appr, from, wd, wdf, cc, ccf, adv, settle, OKW, rej, okc, refunded, kept, apart, pos, worldSuite } = c;
const { WINDOW, DRIFT } = require('../lib/world.js');
const U64 = 1n << 64n, U128 = 1n << 128n;
const thorough = env => env.tier === 'thorough';
const many = (n, mk) => Array.from({ length: n }, (_, i) => mk(i));
const sp = i => acc(P(0x1000 + i));

// ---- pruning --------------------------------------------------------------------------
exports.scale = env => worldSuite(env, 'scale', {
  note: '99 to 350 approvals that expire at the same time or one after another, among approvals that do not; every kind of operation at, before and after the expiry; the stored counts after each',
  depth: { quick: 2, thorough: 3 },
  world: { accounts: [A0, A1, B0, C0], pairs: [...[0, 1, 50, 98, 99, 100, 101, 199, 200, 201, 249].map(i => [A0, sp(i)]), [A0, B0], [A0, C0], [A1, B0]], metrics: true },
  starts: [[99, 0], [100, 0], [101, 0], [201, 0], [250, 1], [5, 1], [150, -1]].concat(thorough(env) ? [[350, 1], [200, 0], [102, -1]] : []).map(([n, step]) => ({
    ops: [dep(A0, 1000n * F), dep(A1, 50n * F), dep(B0, 9n * F), appr(A0, B0, 9n * F), appr(A0, C0, 9n * F, { expires_at: T0 + 5000n }), appr(A1, B0, 9n * F, { expires_at: T0 + 900n }),
      { bulk: many(n, i => appr(A0, sp(i), F + BigInt(i), { expires_at: T0 + 1000n + BigInt(step >= 0 ? step * i : n - i) })) }],
  })),
  alphabet(node, d, { now, pending }) {
    const t = T0 + 1000n;
    const steps = [t - 1n, t, t + 1n, t + 99n, t + 100n, t + 101n, T0 + 5000n].filter(x => x > now).map(x => adv(x - now));
    const acts = [xfer(A0, C0, 1n), appr(A0, sp(0), 5n), appr(A0, sp(99), 5n, { expires_at: now + 50n }), appr(A0, sp(100), 0n), from(B0, A0, C0, F), dep(A1, 2n * F), wd(A0, CANISTER, F), wdf(B0, A0, CANISTER, F), cc(A0, F), ccf(B0, A0, F), from(sp(1), A0, C0, 1n), xfer(A0, C0, 10000n * F), ...pending.map((p, i) => settle(i, OKW))];
    return d === 0 ? steps.concat(acts.slice(0, 4)) : steps.slice(0, 2).concat(acts);
  },
});

// requests with created_at_time that leave the window
exports.txscale = env => worldSuite(env, 'txscale', {
  note: 'many requests with created_at_time leaving the window together or one after another: stored request counts after each operation, and which of them are still recognised',
  depth: 2,
  world: { accounts: [A0, B0, C0], pairs: [[A0, B0]], metrics: true },
  starts: [3, 130, ...(thorough(env) ? [1500] : [])].flatMap(n => [0n, 1n].map(step => ({ ops: [dep(A0, 100000n * F), dep(B0, 100n * F), appr(A0, B0, 5000n * F), { bulk: many(n, i => (i % 2 ? xfer(A0, C0, BigInt(i), { created_at_time: T0 + BigInt(i) * step }) : appr(A0, B0, 5000n * F + BigInt(i), { created_at_time: T0 + BigInt(i) * step }))) }] }))),
  alphabet(node, d, { now }) {
    const e = T0 + WINDOW + DRIFT;
    const n = node.g.dedup.size;
    const again = [1, 3, n - 1 - (n % 2), n / 2 - (n / 2 + 1) % 2].map(i => BigInt(Math.trunc(i))).flatMap(i => [0n, 1n].map(s => xfer(A0, C0, i, { created_at_time: T0 + i * s })));
    const steps = [e - 1n, e, e + 1n, e + 2n, e + 60n, e + 5000n].filter(x => x > now).map(x => adv(x - now));
    return d === 0 ? steps : again.concat([xfer(A0, C0, 1n), dep(A0, 2n * F), from(B0, A0, C0, 1n), appr(A0, B0, 7n * F), wd(A0, CANISTER, F), cc(A0, F), xfer(A0, C0, 1n << 90n)]);
  },
});

// ---- a ledger that holds thousands of everything -------------------------------------------
exports.big = env => {
  const N = thorough(env) ? 5200 : 2100, W = T0 + WINDOW + DRIFT, X = T0 + 10n ** 12n;
  const at = [0, 1, 500, 999, 1000, 1001, 1023, 1024, 2000, 2047, 2048, N - 1];
  return worldSuite(env, 'big', {
    note: `a ledger with ${N} accounts, ${N} approvals (a third of which expire), ${N} recognised requests and ${2 * N} blocks: every operation, repetitions, listings, pages of blocks up to the whole log in one answer, expiry and the end of the window all at once, upgrades; all balances, all allowances and all blocks read back`,
    depth: { quick: 2, thorough: 2 },
    world: { accounts: [A0, A1, B0, C0, sp(0), sp(1500), sp(N - 1)], pairs: [[A0, B0], [A0, sp(0)], [A0, sp(1)], [A0, sp(1500)], [A0, sp(N - 1)]], metrics: true, open: true, fullLog: 'kept' },
    starts: [100n, 3000n, U64 - 1n].map(max_blocks_per_request => ({ init: { max_blocks_per_request }, ops: [dep(A0, 1_000_000n * F), dep(B0, 9n * F), { bulk: many(2 * N, i => (i < N ? xfer(A0, sp(i), F + BigInt(i), { created_at_time: T0 + BigInt(i) }) : appr(A0, sp(i - N), 5n * F + BigInt(i), i % 3 ? {} : { expires_at: X + BigInt(i % 7) }))) }, { audit: null }] })),
    alphabet(node, d, { now, pending }) {
      const out = d === 0 || now > W - 1n || node.g.cfg.max !== 100n ? [{ audit: null }] : [];
      const len = node.o.len, list = (prev_spender, take) => op({ list: { from_account: A0, prev_spender, take }, by: ANON });
      if (node.g.cfg.max !== 100n) { // what one answer may hold
        for (const r of [[0n, len], [1n, len], [0n, 1000n], [0n, 1024n], [5n, 2048n], [len - 2500n, 2500n], [len - 1n, 5n]]) out.push(op({ get: [{ start: r[0], length: r[1] }] }));
        out.push(op({ get: [{ start: 0n, length: 1500n }, { start: 1000n, length: 1500n }, { start: 3n, length: 1n }] }));
        return d ? out.slice(0, 3) : out.concat([{ upgrade: null }]);
      }
      for (const i of at) out.push(xfer(A0, sp(i), F + BigInt(i), { created_at_time: T0 + BigInt(i) }), list(sp(i), 3n), op({ get: [{ start: BigInt(i), length: 3n }, { start: len - BigInt(i) - 1n, length: 2n }] }));
      for (const i of [0, 1500, N - 1]) out.push(xfer(sp(i), C0, 1n), from(sp(i), A0, C0, F), wdf(sp(i), A0, CANISTER, 2n * F), appr(A0, sp(i), 7n * F, { expected_allowance: 5n * F + BigInt(i + N) }), appr(A0, sp(i), 0n));
      out.push(list(null, null), list(null, 499n), xfer(A0, A1, 5n), dep(A1, 3n * F), cc(A0, 3n * F), ccf(sp(1), A0, 3n * F), appr(A0, B0, F, { expires_at: now + 1n }));
      pending.forEach((p, i) => out.push(settle(i, rej(4))));
      if (!pending.length) out.push({ upgrade: null });
      if (d === 0) out.push(adv(X - now), adv(X + 7n - now), adv(W - now), adv(W + 1000n - now), adv(W + BigInt(N) - now));
      return out;
    },
  });
};

// ---- listing ------------------------------------------------------------------------------
const Q = [P(1), P(0x20), '07', 'cd'.repeat(28) + '01', SELF_AUTH, ANON, 'ff01'];
const OWN = [A, '07', SELF_AUTH];
const FROMS = [acc(A), acc(A, SUB(1)), acc(A, S(0xff)), acc('07'), acc(SELF_AUTH), acc(SELF_AUTH, SUB(9))];
const SPS = [acc(Q[0]), acc(Q[0], SUB(1)), acc(Q[0], S(0xff)), acc(Q[1]), acc(Q[3]), acc(Q[5]), acc(Q[6])];
const lpairs = FROMS.flatMap(f => SPS.filter(s => s.owner !== f.owner).map(s => [f, s]));
exports.listing = env => worldSuite(env, 'listing', {
  note: 'icrc103_get_allowances for every owner, start account, previous spender (live, expired, revoked, absent), take 0, 1, 2, 3, 7, 499…501, 2^64, none, and time; approvals with and without expiry; 501 and 620 approvals of one owner; paging through all of them',
  depth: { quick: 2, thorough: 3 },
  world: { accounts: FROMS, pairs: lpairs },
  starts: [
    { ops: [...FROMS.map(f => dep(f, 90n * F)), { bulk: lpairs.map(([f, s], i) => appr(f, s, BigInt(i + 1), i % 3 ? { expires_at: T0 + BigInt(10 * (i % 4 + 1)) } : {})) }] },
    { ops: [...FROMS.map(f => dep(f, 90n * F)), { bulk: lpairs.filter((_, i) => i % 2).map(([f, s], i) => appr(f, s, BigInt(i + 1))) }] },
    { ops: [] },
    { ops: [dep(A0, 1000n * F), dep(acc(A, SUB(1)), 40n * F), { bulk: many(501, i => appr(A0, sp(i), 1n, i === 7 ? { expires_at: T0 + 10n } : {})).concat(many(3, i => appr(acc(A, SUB(1)), sp(i), 2n))) }] },
    { ops: [dep(A0, 1000n * F), { bulk: many(620, i => appr(A0, sp(i), 1n, i < 60 ? { expires_at: T0 + 10n } : {})) }] },
  ],
  alphabet(node, d, { now }) {
    const out = [];
    const big = node.o.len > 500n;
    const list = (by, from_account, prev_spender, take) => op({ list: { from_account, prev_spender, take }, by });
    if (big) {
      for (const take of [null, 0n, 1n, 499n, 500n, 501n, U64, U128]) for (const i of [null, 0, 1, 59, 60, 98, 119, 120, 498, 499, 500, 501, 619, 700]) out.push(list(ANON, A0, i === null ? null : sp(i), take));
      out.push(list(A, null, null, null), list(A, null, sp(500), 2n), list(ANON, acc(A, SUB(1)), null, null), list(ANON, acc(A, SUB(1)), sp(0), 5n));
    } else {
      const fs = [null, ...FROMS, acc(A, SUB(2)), acc(A, ZERO), acc(B), acc(MGMT), acc(SELF_AUTH, S(0xff))];
      const ps = [null, ...SPS, acc(Q[0], ZERO), acc(Q[0], SUB(2)), acc(MGMT), acc(Q[2]), acc('cd'.repeat(28) + '02', S(0xff))];
      for (const f of fs) for (const p of ps) for (const t of (d ? [null, 2n] : [null, 0n, 1n, 2n, 3n, 7n, U64])) out.push(list(f === null ? Q[2] : ANON, f, p, t));
    }
    if (d === 0) {
      for (const t of [9n, 10n, 11n, 20n, 40n, 41n]) out.push(adv(t));
      if (!big) { out.push({ upgrade: null }); for (const [f, s] of lpairs.slice(0, 4)) out.push(appr(f, s, 0n), appr(f, s, 77n), appr(f, s, 78n, { expires_at: now + 15n })); }
    }
    return out;
  },
});

// ---- upgrades ---------------------------------------------------------------------------------
const set = p => ({ SetTo: p }), unset = { Unset: null };
exports.upgrade = env => worldSuite(env, 'upgrade', {
  note: 'upgrades with every kind of argument between operations of every kind; the whole log, all balances, allowances, counters, certified data and recognised requests compared before and after',
  depth: { quick: 3, thorough: 4 },
  world: { accounts: [A0, A1, B0, C0], pairs: [[A0, B0], [A1, B0], [B0, A0]], metrics: true, fullLog: true, listings: true, http: true },
  starts: [
    { ops: [] },
    { init: { max_blocks_per_request: 3n, index_id: CANISTER }, ops: [dep(A0, 20n * F), dep(A1, 5n * F), appr(A0, B0, 6n * F, { expires_at: T0 + 10n }), xfer(A0, B0, 3n * F, { created_at_time: T0 })] },
    { init: { initial_balances: [[A0, 40n * F], [B0, 7n * F]] }, ops: [cc(A0, 2n * F, { created_at_time: T0 }), settle(0, okc(CANISTER2)), wd(A0, CANISTER, F), settle(0, rej(4))], expectOk: false },
  ],
  alphabet(node, d, { now, pending }) {
    const up = x => ({ upgrade: x });
    const ops = [up(null), up({ max_blocks_per_request: null, change_index_id: null })];
    if (d < 2 || thorough(env)) ops.push(up({ max_blocks_per_request: 7n, change_index_id: null }), up({ max_blocks_per_request: null, change_index_id: set(B) }), up({ max_blocks_per_request: null, change_index_id: unset }), up({ max_blocks_per_request: 0n, change_index_id: set(C) }), up({ max_blocks_per_request: U64 - 1n, change_index_id: unset }));
    ops.push({ upgrade: 'init', raw: L.rawOptLedgerArg({ Init: { max_blocks_per_request: 5n, index_id: null, initial_balances: null } }), bad: true });
    ops.push({ upgrade: 'none', raw: L.rawOptLedgerArg({ Upgrade: null }), same: true });
    if (node.g.cfg.max > 0n) ops.push(dep(A0, 3n * F), xfer(A0, B0, 3n * F, { created_at_time: T0 }), xfer(A0, C0, F), appr(A0, B0, 4n * F, { expires_at: now + 10n }), from(B0, A0, C0, F), cc(A0, 2n * F, { created_at_time: T0 }), wd(A0, CANISTER, F), ...pending.map((p, i) => settle(i, rej(4))), adv(10n));
    return ops;
  },
});

exports.install = env => worldSuite(env, 'install', {
  note: 'installation with every combination of limit, index and initial balances (none, empty, several, the same account twice, zero, 2^128−1, more than 2^128−1 in total); an upgrade argument at installation; then one operation or upgrade',
  depth: 1,
  world: { accounts: [A0, A1, B0, C0], pairs: [[A0, B0]], metrics: true },
  starts: (() => {
    const out = [];
    for (const max of [0n, 1n, 100n, U64 - 1n]) for (const index of [null, CANISTER, '07']) for (const ib of [null, [], [[A0, 5n * F]], [[A0, 1n], [A1, 2n], [B0, 3n * F], [acc(C, ZERO), 4n]], [[A0, 5n], [A0, 6n], [acc(A, ZERO), 7n]], [[A0, 0n], [B0, 2n]], [[A0, U128 - 1n]]]) if (max || !ib || !ib.length) out.push({ init: { max_blocks_per_request: max, index_id: index, initial_balances: ib } });
    out.push({ init: { initial_balances: [[A0, U128 - 1n], [A0, 1n]] }, initTraps: true }, { init: { initial_balances: [[A0, U128 - 1n], [B0, 1n]] }, initTraps: true });
    out.push({ rawInit: L.rawLedgerArg({ Upgrade: null }), initTraps: true }, { rawInit: L.rawLedgerArg({ Upgrade: { max_blocks_per_request: 5n, change_index_id: null } }), initTraps: true });
    return out;
  })(),
  alphabet: node => (node.g.cfg.max ? [dep(A0, 3n * F), xfer(A0, C0, 1n)] : []).concat([{ upgrade: null }, { upgrade: { max_blocks_per_request: 9n, change_index_id: set(B) } }]),
});

// ---- refused requests leave nothing behind -------------------------------------------------------
exports.refusals = env => worldSuite(env, 'refusals', {
  note: 'every kind of refusal of every endpoint, from several states; afterwards the next request must have exactly the outcome, block, certified data and stored bytes it has without the refused request',
  depth: { quick: 2, thorough: 3 },
  world: { accounts: [A0, A1, B0, C0, acc(MGMT)], pairs: [[A0, B0], [A0, C0], [A1, B0], [C0, B0]], probe: [xfer(A0, B0, 1n, { memo: '77' }), appr(A0, B0, 3n * F, { expires_at: T0 + 900n }), wdf(C0, A0, CANISTER2, 3n), cc(A0, 5n)] },
  starts: [
    { ops: [dep(A0, 9n * F), dep(B0, 3n * F), appr(A0, B0, 3n * F), xfer(A0, B0, F, { created_at_time: T0 })] },
    { ops: [dep(A0, 30n * F), appr(A0, B0, 5n * F, { expires_at: T0 + 5n }), appr(A0, C0, 4n * F), wd(A0, CANISTER, 2n * F, { created_at_time: T0 }), wdf(C0, A0, CANISTER, F, { created_at_time: T0 }), cc(A0, F, { created_at_time: T0 }), adv(6n)] },
  ],
  alphabet(node, d, { bal, alw, now, pending }) {
    const a = bal(A0), w = alw(A0, B0), w2 = alw(A0, C0), old = now - WINDOW - DRIFT - 1n, future = now + DRIFT + 1n;
    const each = x => [xfer(A0, B0, F, x), appr(A0, B0, F, x), from(B0, A0, C0, F, x), wd(A0, CANISTER, 2n * F, x), wdf(C0, A0, CANISTER, F, x), cc(A0, F, x), ccf(C0, A0, F, x)];
    const ops = [...each({ created_at_time: old }), ...each({ created_at_time: future }), ...each({ created_at_time: T0 })];
    for (const fee of [0n, F + 1n, U128]) ops.push(xfer(A0, B0, F, { fee }), appr(A0, B0, F, { fee }), from(B0, A0, C0, F, { fee }));
    for (const memo of ['00'.repeat(33)]) ops.push(xfer(A0, B0, F, { memo }), appr(A0, B0, F, { memo }), from(B0, A0, C0, F, { memo }), dep(A0, 9n * F, { memo }));
    for (const n of [a - F + 1n, U128, U128 - 1n]) ops.push(xfer(A0, B0, n), wd(A0, CANISTER, n), cc(A0, n), from(A0, A0, C0, n));
    for (const n of [w - F + 1n, w2 - F + 1n, a]) if (n >= 0n) ops.push(from(B0, A0, C0, n), from(C0, A0, C0, n), wdf(B0, A0, CANISTER, n), wdf(C0, A0, CANISTER, n), ccf(B0, A0, n), ccf(C0, A0, n));
    ops.push(appr(A0, B0, F, { expected_allowance: w + 1n }), appr(A0, B0, F, { expires_at: now }), appr(A0, B0, F, { expires_at: 0n }), appr(A0, A1, F), appr(C0, B0, F), appr(A0, acc(MGMT), F), xfer(A0, acc(MGMT), F), from(acc(MGMT), A0, C0, 0n));
    ops.push(dep(A0, F), dep(A0, 0n), dep(A0, F - 1n), wd(A0, SELF_AUTH, F), wdf(C0, A0, SELF_AUTH, F), wd(A0, CANISTER, 0n), wdf(C0, A0, CANISTER, 0n));
    if (d === 0) ops.push(dep(A0, 2n * F), xfer(A0, C0, F), appr(A0, B0, 2n * F), ...pending.map((p, i) => settle(i, rej(4))), adv(1n));
    return ops;
  },
});
