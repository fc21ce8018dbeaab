'use strict';
// A ledger in use, upgraded to the code under test: stable memory written by
// the released ledger is read by this one.
const c = require('./common.js');
const { F, T0, P, S, SUB, ZERO, acc, A, B, C, D, A0, A1, A2, B0, B1, C0, CANISTER, CANISTER2, SELF_AUTH, ANON, op, dep, xfer, appr, from, wd, wdf, cc, ccf, adv, settle, OKW, rej, okc, refunded, kept, apart, refundFailed, pos, worldSuite } = c;
const { WINDOW, DRIFT, U128 } = require('../lib/world.js');
const LONG = acc('cd'.repeat(28) + '01'), LONG1 = acc('cd'.repeat(28) + '01', S(0xff)), SHORT = acc('07'), ANY = acc(ANON);
const k = { created_at_time: T0 };
const memo = 'ee'.repeat(32);
const sp = i => acc(P(0x1000 + i));
const set = p => ({ SetTo: p });
exports.released = env => worldSuite(env, 'released', {
  note: 'ledgers written by the released code (every kind of block with every optional field, principals of 1 to 29 bytes, subaccounts, approvals live, expired and used up, recognised requests with and without a created canister, 120 expiring approvals, limits and index set), upgraded to the code under test; before and after the upgrade every kind of operation',
  depth: { quick: 3, thorough: 4 }, released: true,
  world: {
    accounts: [A0, A1, B0, B1, C0, LONG, LONG1, SHORT, ANY], metrics: true, fullLog: 'upgrade', listings: true,
    pairs: [[A0, B0], [A0, B1], [A1, B0], [A0, LONG1], [LONG1, A0], [LONG, SHORT], [SHORT, A1], [A0, ANY], [A0, sp(0)], [A0, sp(100)], [A0, sp(119)]],
  },
  starts: [
    { ops: [] },
    { init: { max_blocks_per_request: 3n, index_id: CANISTER, initial_balances: [[A0, 60n * F], [LONG1, 1n << 100n], [acc(B, ZERO), 5n * F]] }, ops: [{ upgrade: { max_blocks_per_request: 5n, change_index_id: set(LONG.owner) } }] },
    {
      ops: [dep(A0, 90n * F, { memo }), dep(A1, 9n * F, { memo: '' }), dep(B1, 9n * F, { memo: '01' }), dep(LONG1, 30n * F), dep(LONG, 9n * F), dep(SHORT, 9n * F), dep(ANY, 9n * F), dep(acc(C, ZERO), 1n << 70n),
        xfer(A0, LONG1, F, { ...k, memo, fee: F }), xfer(LONG1, SHORT, F + 300n, { memo: '' }), xfer(A0, A0, 0n), xfer(ANY, A0, 1n, k),
        appr(A0, B0, 9n * F, { ...k, expires_at: T0 + 10n, expected_allowance: 0n, fee: F, memo }), appr(A0, B1, U128 << 3n), appr(A1, B0, 5n * F, { expires_at: T0 + (1n << 40n) }), appr(A0, LONG1, 4n * F), appr(LONG1, A0, 7n * F, { expires_at: (1n << 64n) - 1n }), appr(LONG, SHORT, 1n), appr(SHORT, A1, 0n), appr(A0, ANY, 2n * F, { expires_at: T0 + 10n }),
        from(B0, A0, C0, F, { ...k, memo: '05', fee: F }), from(B1, A0, B1, 2n * F), from(A0, A0, A1, 1n, k), adv(1n)],
    },
    {
      expectOk: false,
      ops: [dep(A0, 90n * F), dep(LONG1, 60n * F), appr(A0, B0, 40n * F, { expires_at: T0 + 1000n }), appr(LONG1, A0, 40n * F),
        wd(A0, CANISTER, F, k), settle(0, OKW), wd(LONG1, LONG.owner, 2n * F + 1n), settle(0, rej(4)), wdf(B0, A0, CANISTER, 3n * F, k), settle(0, rej(2)), wdf(A0, LONG1, '07', 3n * F), settle(0, OKW),
        cc(A0, 2n * F, k), settle(0, okc(CANISTER2)), cc(LONG1, 3n * F, k), settle(0, refunded('all')), ccf(B0, A0, 4n * F, k), settle(0, refunded(2n * F + 5n)), ccf(A0, LONG1, 4n * F, k), settle(0, okc(CANISTER)), cc(A0, 5n * F), settle(0, refundFailed), adv(3n)],
    },
    { ops: [dep(A0, 200n * F), appr(A0, B0, 9n * F), { bulk: Array.from({ length: 120 }, (_, i) => appr(A0, sp(i), F + BigInt(i), { expires_at: T0 + 10n + BigInt(i % 3), created_at_time: T0 + BigInt(i) })) }, adv(5n)] },
  ],
  alphabet(node, d, { bal, alw, now, pending }) {
    const ops = [];
    if (!node.g.adopted) {
      if (!pending.length) for (const u of d ? [null] : [null, { max_blocks_per_request: 9n, change_index_id: null }, { max_blocks_per_request: null, change_index_id: { Unset: null } }]) ops.push({ upgrade: u, adopt: true });
      if (d > 0) { pending.forEach((p, i) => ops.push(settle(i, rej(4)))); return ops; }
    } else if (!pending.length) ops.push({ upgrade: null });
    ops.push(dep(A0, 3n * F, { memo: '0102' }), dep(LONG1, 2n * F), xfer(A0, LONG1, F, { ...k, memo, fee: F }), xfer(LONG1, A0, F, { memo: '09' }), xfer(ANY, A0, 1n, k));
    ops.push(appr(A0, B0, 9n * F, { ...k, expires_at: T0 + 10n, expected_allowance: 0n, fee: F, memo }), appr(A0, B1, 5n), appr(LONG1, A0, 8n * F, { expires_at: now + 4n }), appr(A0, LONG1, 0n));
    ops.push(from(B0, A0, C0, F, { ...k, memo: '05', fee: F }), from(B1, A0, B1, F), from(A0, LONG1, LONG, F), from(A0, A0, A1, 1n, k), from(SHORT, LONG, SHORT, 0n));
    ops.push(wd(A0, CANISTER, F, k), cc(A0, 2n * F, k), cc(LONG1, 3n * F, k), ccf(B0, A0, 4n * F, k), ccf(A0, LONG1, 4n * F, k), wdf(B0, A0, CANISTER, 3n * F, k), wdf(A0, LONG1, CANISTER, F));
    if (node.g.adopted) for (const t of [10n, 11n, 12n, 13n, 1000n]) if (T0 + t > now) ops.push(adv(T0 + t - now));
    if (node.g.adopted) ops.push(adv(WINDOW + DRIFT + T0 - now), adv(WINDOW + DRIFT + T0 + 1n - now), appr(A0, sp(119), 3n));
    pending.forEach((p, i) => ops.push(settle(i, rej(4)), ...(p.kind === 'create' ? [settle(i, okc(CANISTER2))] : [settle(i, OKW)])));
    return ops;
  },
});
