'use strict';
// Products of argument values: one request each (followed by nothing or by one
// fixed request), from a few states.
const c = require('./common.js');
const { F, T0, P, S, SUB, ZERO, acc, A, B, C, D, A0, A1, A2, B0, B1, C0, D0, CANISTER, CANISTER2, SELF_AUTH, ANON, MGMT, L, op, dep, xfer, appr, from, wd, wdf, cc, ccf, adv, settle, OKW, rej, okc, refunded, kept, apart, refundFailed, pos, worldSuite } = c;
const { CMC } = require('../lib/world.js');
const U64 = 1n << 64n, U128 = 1n << 128n;
const prod = (...xs) => xs.reduce((a, b) => a.flatMap(x => b.map(y => [...x, y])), [[]]);
const LONG = acc('cd'.repeat(28) + '01'), SELF = acc(SELF_AUTH), ANONA = acc(ANON), MG = acc(MGMT), MG1 = acc(MGMT, S(1));
const BZ = acc(B, ZERO), AZ = acc(A, ZERO), BL = acc(B, SUB(1)), BT = acc(B, '01' + '00'.repeat(31)), ONE = acc('07');
const memoOf = n => 'a5'.repeat(n);
const MEMOS = [null, '', memoOf(1), memoOf(32), memoOf(33), memoOf(64)];
const thorough = env => env.tier === 'thorough';
const universe = [A0, A1, A2, B0, BL, BT, C0, LONG, SELF, ANONA, MG, MG1, ONE, D0];
const pairs = [];
for (const f of [A0, A1, A2, B0, ANONA, MG]) for (const s of [B0, BL, BT, C0, A0, A1, A2, LONG, SELF, ANONA, MG, ONE]) if (c.key(f) !== c.key(s)) pairs.push([f, s]);
const X = T0 + 1000n;

exports.p_transfer = env => worldSuite(env, 'p_transfer', {
  note: 'icrc1_transfer: every combination of sender subaccount, receiver, amount, fee, memo and created_at_time from the listed values; deposits to every kind of account',
  depth: 1,
  world: { accounts: universe, pairs: [[A0, B0]], aliases: true },
  starts: [{ ops: [dep(A0, 20n * F), dep(A1, 3n * F), dep(B0, 2n * F)] }, { ops: [dep(A0, 2n * F), dep(acc(A, S(1)), 40n * F)] }],
  alphabet(node, d, { bal }) {
    const out = [];
    const full = thorough(env);
    const a = bal(A0);
    for (const [sub, to, fee, memo, t] of prod([null, ZERO, S(1)], [B0, BZ, BL, BT, A0, A1, LONG, SELF, ANONA, MG, MG1, ONE], full ? [null, F, F - 1n, F + 1n, 0n, U64, U128] : [null, F, F - 1n, U128], full ? MEMOS : [null, '', memoOf(32), memoOf(33)], [null, node.s.time])) {
      const x = bal(sub === S(1) ? A1 : A0);
      for (const n of pos(full ? [0n, 1n, F, x - F - 1n, x - F, x - F + 1n, x, U64 - 1n, U64, U128 - F - 1n, U128 - F, U128 - 1n, U128, U128 + x - F, 1n << 200n] : [0n, x - F, x - F + 1n, U64 + 1n, U128 - F, U128 + 1n])) {
        if (!full && memo === '' && fee !== null) continue;
        out.push(xfer(acc(A, sub), to, n, { fee, memo, created_at_time: t }));
      }
    }
    for (const [to, memo, cyc] of prod(universe.concat([BZ]), MEMOS, [0n, 1n, F - 1n, F, F + 1n, 2n * F, U64, 1n << 100n, U128 - 1n])) out.push(dep(to, cyc, { memo }));
    for (const sub of ['', '01', '01'.repeat(31)]) out.push(xfer(acc(A, sub), B0, 1n), xfer(A0, acc(B, sub), 1n), dep(acc(B, sub), 2n * F));
    return out;
  },
});

exports.p_approve = env => worldSuite(env, 'p_approve', {
  note: 'icrc2_approve: every combination of sender subaccount, spender, amount, expected allowance, expiry, fee and memo from the listed values',
  depth: 1,
  world: { accounts: universe, pairs },
  starts: [
    { ops: [dep(A0, 20n * F), dep(A1, 3n * F), appr(A0, B0, 5n), appr(A1, B0, 7n, { expires_at: X })] },
    { ops: [dep(A0, 2n * F + 5n), appr(A0, BL, U128 - 1n)] },
    { ops: [dep(A0, 20n * F), dep(A1, 3n * F), appr(A0, B0, 5n, { expires_at: X }), appr(A1, B0, 7n, { expires_at: X }), adv(X - T0)] },
  ],
  alphabet(node, d) {
    const out = [], now = node.s.time, full = thorough(env);
    for (const [sub, sp, n, expected, expires, fee, memo] of prod([null, ZERO, S(1), SUB(2)], [B0, BZ, BL, A0, AZ, A1, MG, ANONA, LONG], full ? [0n, 1n, U64, U128 - 1n, U128, 1n << 200n] : [0n, 9n, U128 - 1n, U128 + 1n], full ? [null, 0n, 5n, 7n, U128 - 1n, U128, U128 + 5n] : [null, 0n, 5n, U128 + 5n], full ? [null, 0n, now - 1n, now, now + 1n, U64 - 1n] : [null, now, now + 1n, U64 - 1n], [null, F - 1n, U128 + F], [null, memoOf(33)])) {
      if (!full && memo !== null && (fee !== null || expected !== null)) continue;
      if (!full && fee === U128 + F && expected !== null) continue;
      out.push(appr(acc(A, sub), sp, n, { expected_allowance: expected, expires_at: expires, fee, memo }));
    }
    for (const [sp, fee, memo, t] of prod([B0, LONG, ONE, SELF], [null, F, F + 1n, 0n, U64], MEMOS, [null, now])) out.push(appr(A0, sp, 3n, { fee, memo, created_at_time: t }));
    return out;
  },
});

exports.p_spend = env => worldSuite(env, 'p_spend', {
  note: 'icrc2_transfer_from, withdraw_from and create_canister_from: every combination of spender account, source, destination, amount, fee and memo from the listed values',
  depth: 1,
  world: { accounts: universe, pairs },
  starts: [{ ops: [dep(A0, 20n * F), dep(A1, 3n * F), dep(B0, 9n * F), appr(A0, B0, 5n * F), appr(A1, B0, U128), appr(A0, BL, 2n * F), appr(A0, ANONA, 3n * F), appr(B0, A0, F)] }, { ops: [dep(A0, 20n * F), dep(A1, 3n * F), appr(A0, B0, 5n * F, { expires_at: X }), appr(A1, B0, U128, { expires_at: X }), appr(A0, BL, 2n * F, { expires_at: X + 1n }), adv(X - T0)] }],
  alphabet(node, d, { bal, alw }) {
    const out = [], full = thorough(env);
    for (const [sp, f] of prod([B0, BZ, BL, BT, A0, A1, ANONA, C0], [A0, AZ, A1, A2, B0, MG])) {
      const same = c.key(sp) === c.key(f);
      let w = 0n;
      try { w = same ? bal(f) : alw(f, sp); } catch (e) { continue; }
      const amounts = pos([0n, 1n, w - F, w - F + 1n, bal(f) - F, bal(f) - F + 1n, U128 - F, U128, U128 + 1n]);
      for (const n of amounts) {
        for (const [to, fee, memo] of prod([C0, A0, B0, BZ, MG], [null, F, F - 1n], [null, memoOf(32), memoOf(33)])) {
          if (!full && fee !== null && memo !== null) continue;
          out.push(from(sp, f, to, n, { fee, memo }));
        }
        for (const to of [CANISTER, SELF_AUTH, MGMT, ANON]) out.push(wdf(sp, f, to, n));
        out.push(ccf(sp, f, n));
      }
    }
    return out;
  },
});

const settings = x => ({ settings: { controllers: null, compute_allocation: null, memory_allocation: null, freezing_threshold: null, reserved_cycles_limit: null, wasm_memory_limit: null, wasm_memory_threshold: null, log_visibility: null, environment_variables: null, ...x }, subnet_selection: null });
const CREATION = [
  null, { subnet_selection: null, settings: null }, settings({}), settings({ controllers: [] }), settings({ controllers: [B] }), settings({ controllers: [C, A, B] }),
  settings({ compute_allocation: 10n }), settings({ memory_allocation: 11n }), settings({ freezing_threshold: 12n }), settings({ reserved_cycles_limit: 13n }), settings({ wasm_memory_limit: 14n }), settings({ wasm_memory_threshold: 15n }),
  settings({ log_visibility: { public: null } }), settings({ log_visibility: { controllers: null } }), settings({ log_visibility: { allowed_viewers: [B] } }), settings({ environment_variables: [{ name: 'a', value: 'b' }] }),
  settings({ controllers: [B], compute_allocation: 1n, memory_allocation: 2n, freezing_threshold: 3n, reserved_cycles_limit: 4n, wasm_memory_limit: 5n }),
  { settings: null, subnet_selection: { Filter: { subnet_type: null } } }, { settings: null, subnet_selection: { Filter: { subnet_type: 'fiduciary' } } }, { settings: null, subnet_selection: { Subnet: { subnet: P(0x99) } } },
  { ...settings({ controllers: [C] }), subnet_selection: { Subnet: { subnet: P(0x99) } } },
];
// the tag that tells users from canisters, in every place where it means nothing and in a few where it does
const RECEIVERS = ['02', '0102', '0201', '00'.repeat(27) + '02', '00'.repeat(27) + '0201', 'cd'.repeat(28) + '03', 'cd'.repeat(28) + '04', '02'.repeat(28) + '01', '00'.repeat(28) + '02', '02'.repeat(29), 'ff'.repeat(28) + '02', '00000000000000040101'];
exports.p_out = env => worldSuite(env, 'p_out', {
  note: 'withdraw and create_canister: every combination of source, destination or creation arguments, amount and created_at_time from the listed values, calls that cannot be made, and every outcome of the call that was made',
  depth: 2,
  world: { accounts: universe, pairs: [[A0, B0], [A1, B0]] },
  starts: [{ ops: [dep(A0, 20n * F), dep(A1, 30n * F), appr(A0, B0, 15n * F)] }],
  alphabet(node, d, { bal, pending }) {
    const out = [];
    if (d === 1) {
      pending.forEach((p, i) => {
        for (const k of [1, 2, 3, 4, 5, 6]) out.push(settle(i, rej(k, 'reason ' + k)));
        if (p.kind === 'create') out.push(settle(i, okc(CANISTER2)), settle(i, okc('07')), settle(i, refunded('all')), settle(i, refunded(F + 1n)), settle(i, { create: { refundFailed: true } }), settle(i, { garbage: true }), settle(i, { garbage: true, back: 0n }), settle(i, kept()), settle(i, kept(2n * F + 1n)), settle(i, apart('all')));
        else out.push(settle(i, OKW));
      });
      return out;
    }
    for (const [sub, t, fault] of prod([null, ZERO, S(1)], [null, node.s.time], [null, { perform: 1 }, { perform: 2 }, { liquid: 0n }])) {
      const f = acc(A, sub), y = fault ? { faults: fault } : {};
      const x = bal(f);
      for (const n of pos([0n, 1n, F, F + 1n, 2n * F, x - F, x - F + 1n, U128 - F, U128 + F])) {
        for (const to of [CANISTER, '07', 'cd'.repeat(28) + '01', SELF_AUTH, ANON, MGMT]) { if (fault && to !== CANISTER) continue; out.push(wd(f, to, n, { created_at_time: t }, y)); }
        out.push(cc(f, n, { created_at_time: t }, y));
      }
      if (!fault && t === null) for (const to of RECEIVERS) out.push(wd(f, to, 2n * F));
      if (!fault) for (const cargs of CREATION) out.push(cc(f, 2n * F, { created_at_time: t, creation_args: cargs }));
    }
    for (const cargs of CREATION) out.push(ccf(B0, A0, 2n * F, { creation_args: cargs }), ccf(A1, A1, 2n * F, { creation_args: cargs }), ccf(A0, A0, 2n * F, { creation_args: cargs, created_at_time: node.s.time }));
    for (const n of [1n, F, F + 1n, 2n * F, 2n * F + 1n, 3n * F]) out.push(ccf(B0, A0, n), wdf(B0, A0, CANISTER, n), wdf(A0, A0, CANISTER, n), wdf(B0, A0, CANISTER, n, {}, { faults: { perform: 2 } }), ccf(B0, A0, n, {}, { faults: { perform: 2 } }), wdf(B0, A0, CANISTER, n, {}, { faults: { liquid: 0n } }), ccf(B0, A0, n, {}, { faults: { liquid: 0n } }));
    return out;
  },
});

// ---- amounts beyond 64 bits --------------------------------------------------------------
exports.wide = env => worldSuite(env, 'wide', {
  note: 'balances and allowances around 2^64, 2^65, 2^100 and 2^127: every operation with amounts around 2^64 and around what is there, settlement of such calls with everything, one cycle more than 2^64 or nothing coming back, upgrade',
  depth: { quick: 2, thorough: 3 },
  world: { accounts: [A0, A1, B0, C0], pairs: [[A0, B0], [A1, B0], [A0, C0]], listings: true, metrics: true },
  starts: [
    { cycles: 1n << 126n, ops: [dep(A0, 2n * U64 + 3n * F), dep(B0, U64 - 1n), appr(A0, B0, U64 + 5n * F), appr(A0, C0, U64 - 1n, { expires_at: X })] },
    { cycles: 1n << 126n, ops: [dep(A0, 1n << 100n), dep(A1, 1n << 126n), appr(A0, B0, 1n << 99n), appr(A1, B0, U128 - 1n), wd(A0, CANISTER, 1n << 98n), ccf(B0, A0, (1n << 70n) + 7n)] },
  ],
  alphabet(node, d, { bal, alw, pending }) {
    const out = [], a = bal(A0), w = alw(A0, B0);
    const around = [U64 - 1n, U64, U64 + 1n, U64 + F];
    for (const n of pos([...around, a - F, a - F + 1n, a - F - U64, 1n << 99n])) out.push(xfer(A0, B0, n), wd(A0, CANISTER, n), cc(A0, n));
    for (const n of pos([...around, w - F, w - F + 1n, w - U64])) out.push(from(B0, A0, C0, n), wdf(B0, A0, CANISTER, n), ccf(B0, A0, n));
    for (const n of [...around, U64 - F, U128 - 1n]) out.push(appr(A0, B0, n), appr(A0, C0, n, { expected_allowance: alw(A0, C0) }), dep(C0, n));
    for (const n of [w + U64, w, w - 1n]) if (n >= 0n) out.push(appr(A0, B0, 7n, { expected_allowance: n }));
    out.push(xfer(A0, A0, U64), xfer(A1, C0, U64, { fee: U64 + F }), xfer(A0, B0, U64, { fee: F, created_at_time: node.s.time }), xfer(B0, A0, bal(B0) >= F ? bal(B0) - F : 0n));
    for (const n of pos([alw(A1, B0) - F, bal(A1) - F, 1n << 120n])) out.push(from(B0, A1, C0, n), wdf(B0, A1, CANISTER, n));
    if (d) out.push({ upgrade: null });
    pending.forEach((p, i) => {
      out.push(settle(i, rej(4)));
      if (p.kind === 'create') { out.push(settle(i, okc(CANISTER2)), settle(i, refunded('all')), settle(i, refundFailed)); if (p.amount > U64) out.push(settle(i, kept(U64 + 1n)), settle(i, refunded(U64 + 1n)), settle(i, refunded(U64 - 1n))); } else out.push(settle(i, OKW));
    });
    return out;
  },
});

// ---- the block log as seen by icrc3_get_blocks -------------------------------------------
const many = (n, mk) => Array.from({ length: n }, (_, i) => mk(i));
const spread = k => [{ bulk: many(k, i => (i % 3 === 0 ? dep(A0, 3n * F) : i % 3 === 1 ? xfer(A0, B0, BigInt(i)) : dep(C0, F + BigInt(i)))) }];
const RW = { accounts: [A0, B0, C0], pairs: [], fullLog: true };
const ranges = (len, max) => {
  const st = pos([0n, 1n, 2n, max - 1n, max, len - 2n, len - 1n, len, len + 1n, U64 - 1n, U64, 1n << 130n]).filter(x => x >= 0n);
  const ln = pos([0n, 1n, 2n, max - 1n, max, max + 1n, len - 1n, len, len + 1n, U64 - 1n, U64, 1n << 130n]);
  return prod(st, ln).map(([start, length]) => ({ start, length }));
};
exports.ranges = env => worldSuite(env, 'ranges', {
  note: 'icrc3_get_blocks: every start and length from 0, 1, 2, the limit, the log length, one less, one more, 2^64−1, 2^64, 2^130; pairs of ranges; limits 0, 1, 2, 7, 100, 2^64−1, also set by an upgrade; logs of 0, 1, 9 and 133 blocks',
  depth: 1,
  world: RW,
  starts: [[0, 100n], [1, 100n], [9, 2n], [9, 1n], [9, 0n], [9, 7n], [133, 100n], [133, U64 - 1n], [9, U64 - 1n], [1, U64 - 1n]].map(([k, max]) => ({ init: { max_blocks_per_request: max }, ops: k && max ? spread(k) : [] })).concat([[9, 7n, 0n], [133, 100n, 0n], [133, 100n, 5n]].map(([k, max, then]) => ({ init: { max_blocks_per_request: max }, ops: [...spread(k), { upgrade: { max_blocks_per_request: then, change_index_id: null } }] }))),
  alphabet(node) {
    const len = node.o.len, max = node.g.cfg.max;
    const rs = ranges(len, max);
    const out = rs.map(r => op({ get: [r] }));
    const small = [{ start: 0n, length: 1n }, { start: len > 2n ? len - 2n : 0n, length: 5n }, { start: 1n, length: max > 3n ? max - 1n > 1000n ? 1000n : max - 1n : 2n }, { start: len, length: 1n }, { start: 0n, length: 0n }, { start: 3n, length: U64 }];
    for (const [x, y] of prod(small, small)) out.push(op({ get: [x, y] }));
    for (const [x, y, z] of prod(small, small, small)) out.push(op({ get: [x, y, z] }));
    out.push(op({ get: [] }));
    // many ranges in one request
    for (const k of [20, 65, 129, 300, 1100]) {
      out.push(op({ get: many(k, i => ({ start: BigInt((i * 7) % 131), length: 1n })) }));
      out.push(op({ get: many(k, i => (i % 2 ? { start: len + BigInt(i), length: 3n } : { start: BigInt(i % 9), length: BigInt(i % 3) })) }));
    }
    return out;
  },
});
exports.longlog = env => worldSuite(env, 'longlog', {
  note: 'logs that cross 127/128, 255/256, 16383/16384 (thorough: 65535/65536) blocks (the certified index changes its length there): every request at each length, then the whole log is read back in pages and checked against the recorded hashes',
  depth: { quick: 2, thorough: 3 },
  world: { accounts: [A0, B0, C0, D0], pairs: [] },
  starts: [125, 126, 127, 253, 254, 16382, ...(thorough(env) ? [16383, 65534] : [])].map(k => ({ ops: spread(k) })),
  alphabet: (node, d) => [dep(A0, 2n * F), xfer(A0, B0, 1n), xfer(A0, B0, F, { memo: '00' }), wd(A0, CANISTER, F)].concat(node.g.pending.length ? [settle(0, rej(4)), settle(0, OKW)] : [{ upgrade: null }]),
});

// ---- principals and memos that mean something to the ledger ---------------------------------
const LEDGER = '000000000000005e0101', W_MEMO = '814a' + CANISTER, OWN_MEMOS = ['ff'.repeat(32), 'fe'.repeat(32), 'fd'.repeat(32), W_MEMO, '00'.repeat(32)];
const LE = acc(LEDGER), CM = acc(CMC), CM1 = acc(CMC, S(3)), ROOT = acc('00000000000000030101');
exports.special = env => worldSuite(env, 'special', {
  note: 'requests that carry the memos the ledger itself writes, with and without creation time, beside the withdrawals, creations and refunds that carry them; accounts of the ledger itself, of the minting canister, of the anonymous principal; withdrawals to the ledger, the minting canister and the caller; everything done twice',
  depth: { quick: 2, thorough: 3 },
  world: { accounts: [A0, B0, C0, LE, CM, CM1, ANONA, ROOT, acc(LEDGER, S(1))], pairs: [[A0, B0], [A0, LE], [A0, CM], [CM, B0], [A0, ANONA], [ANONA, A0]] },
  starts: [
    { ops: [dep(A0, 90n * F), dep(CM, 30n * F), dep(LE, 5n * F), dep(ANONA, 30n * F), appr(A0, B0, 40n * F), appr(A0, CM, 20n * F), appr(CM, B0, 20n * F), appr(A0, ANONA, 9n * F)] },
    { ops: [dep(A0, 90n * F), dep(CM, 30n * F), dep(ANONA, 30n * F), appr(A0, B0, 40n * F), wd(A0, CANISTER, 5n * F, { created_at_time: T0 }), cc(A0, 5n * F, { created_at_time: T0 }), wdf(B0, A0, CANISTER, 5n * F), ccf(B0, A0, 5n * F)] },
  ],
  alphabet(node, d, { bal, alw, now, pending }) {
    const out = [];
    for (const memo of OWN_MEMOS) for (const created_at_time of [null, T0]) {
      out.push(xfer(A0, C0, 5n * F, { memo, created_at_time }), appr(A0, B0, 30n * F, { memo, created_at_time }), from(B0, A0, C0, 5n * F, { memo, created_at_time }));
      if (!created_at_time) out.push(dep(A0, 6n * F, { memo }));
    }
    for (const created_at_time of [null, T0]) {
      const k = { created_at_time };
      out.push(wd(A0, CANISTER, 5n * F, k), cc(A0, 5n * F, k), wdf(B0, A0, CANISTER, 5n * F, k), ccf(B0, A0, 5n * F, k));
      for (const to of [LEDGER, CMC, A, '00000000000000030101', D]) out.push(wd(A0, to, 3n * F, k));
      out.push(cc(CM, 3n * F, k), wd(CM, CANISTER, 3n * F, k), xfer(CM, A0, F, k), xfer(A0, CM, F, k), xfer(A0, LE, F, k), appr(A0, LE, F, k), from(CM, A0, CM1, F, k), ccf(CM, A0, 3n * F, k), ccf(B0, CM, 3n * F, k));
      out.push(xfer(ANONA, A0, F, k), xfer(A0, ANONA, F, k), cc(ANONA, 3n * F, k), wd(ANONA, CANISTER, 3n * F, k), from(ANONA, A0, C0, F, k), wdf(ANONA, A0, CANISTER, 2n * F, k), appr(ANONA, A0, F, k));
    }
    for (const [to, by] of [[A0, A], [A0, CMC], [LE, LEDGER], [CM, CMC], [ANONA, B], [ROOT, C], [acc(LEDGER, S(1)), B]]) out.push(op({ ...dep(to, 2n * F + 1n), by }));
    pending.forEach((p, i) => { out.push(settle(i, rej(4))); out.push(settle(i, p.kind === 'create' ? okc(CMC) : OKW)); if (p.kind === 'create') out.push(settle(i, okc(LEDGER)), settle(i, apart('all'))); });
    return out;
  },
});

// ---- which account is meant ---------------------------------------------------------------
// owners and subaccounts that a wrong comparison, prefix or padding would confuse
const O1 = '07', O2 = '0700', O3 = '000007', LSUB = 'ff'.repeat(31) + '00';
const o1 = acc(O1), o1z = acc(O1, ZERO), o1a = acc(O1, SUB(1)), o1b = acc(O1, '01' + '00'.repeat(31)), o1c = acc(O1, SUB(256)), o1d = acc(O1, LSUB), o2 = acc(O2), o2a = acc(O2, SUB(1)), o3 = acc(O3), l1 = acc('cd'.repeat(28) + '01'), l1a = acc('cd'.repeat(28) + '01', SUB(1)), l2 = acc('cd'.repeat(28) + '03');
exports.spelling = env => worldSuite(env, 'spelling', {
  note: 'accounts whose owners are prefixes of one another or 1, 3, 10 and 29 bytes long and whose subaccounts are absent, zero, or differ in the first, the last but one or the last byte; every operation with both spellings of the default account; both spellings queried after each step',
  depth: { quick: 2, thorough: 3 },
  world: { accounts: [o1, o1a, o1b, o1c, o1d, o2, o2a, o3, l1, l1a, l2], pairs: [[o1, o2], [o1, o2a], [o1a, o2], [o1b, o2], [o1c, o2], [o1, o3], [o2, o1], [o1, l1], [o1, l1a], [l1, o1], [l2, o1], [l1a, o1], [l1, o1a]], aliases: true, listings: true },
  starts: [
    { ops: [dep(o1z, 9n * F), dep(o1a, 8n * F), dep(o1b, 7n * F), dep(o2, 6n * F), dep(l1, 5n * F)] },
    { ops: [dep(o1, 40n * F), dep(o2, 40n * F), dep(l1, 40n * F), dep(o1a, 30n * F), appr(o1z, acc(O2, ZERO), 5n * F), appr(o1a, o2, 4n * F), appr(o1, o2a, 3n * F), appr(l1, o1z, 7n * F), appr(l1, o1a, 8n * F), appr(o2, o1, 6n * F)] },
  ],
  alphabet(node, d, { bal, alw, pending }) {
    const ops = [];
    const forms = a => (a.subaccount === null ? [a, acc(a.owner, ZERO)] : [a]);
    const all = [o1, o1a, o1b, o1c, o1d, o2, o2a, o3, l1, l1a, l2];
    for (const a of all) for (const x of forms(a)) ops.push(dep(x, 2n * F));
    for (const a of [o1, o1a, o2, l1]) for (const x of forms(a)) for (const b of [o1, o1a, o2, l1a]) for (const y of forms(b)) ops.push(xfer(x, y, bal(a) >= F ? bal(a) - F : 0n));
    for (const a of [o1, o1a, l1]) for (const x of forms(a)) for (const b of [o2, o2a, o3, o1, l1]) if (a.owner !== b.owner) for (const y of forms(b)) ops.push(appr(x, y, 3n * F));
    for (const b of [o2, o2a, o3]) for (const y of forms(b)) for (const a of [o1, o1a, o1b]) for (const x of forms(a)) { const w = alw(a, b); ops.push(from(y, x, o1d, w >= F ? w - F : 0n), wdf(y, x, CANISTER, w >= F ? w - F : 1n)); }
    for (const b of [o1, o1a]) for (const y of forms(b)) for (const a of [l1, l2]) for (const x of forms(a)) ops.push(from(y, x, o3, F), ccf(y, x, F));
    for (const x of forms(o1)) ops.push(from(x, o1, o3, F), from(x, o1z, o3, F), from(o1a, x, o3, F), wdf(x, o1z, CANISTER, F), wd(x, CANISTER, F), cc(x, F));
    pending.forEach((p, i) => ops.push(settle(i, rej(4))));
    return ops;
  },
});
