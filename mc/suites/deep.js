'use strict';
// Few operations, long histories, and no merging of equal states: what the
// canister keeps outside of stable memory cannot hide here.
const c = require('./common.js');
const { F, T0, A0, A1, B0, C0, CANISTER, CANISTER2, dep, xfer, appr, from, wd, wdf, cc, ccf, adv, settle, OKW, rej, okc, refunded, kept, apart, pos, worldSuite } = c;
const { WINDOW, DRIFT } = require('../lib/world.js');

exports.deepallow = env => worldSuite(env, 'deepallow', {
  note: 'one approval through its whole life: set with and without expiry, changed, revoked, used in part and used up by transfer and by withdrawal, refunded, expired, upgraded; every history, no merging',
  depth: { quick: 5, thorough: 6 }, merge: false,
  world: { accounts: [A0, B0, C0], pairs: [[A0, B0], [A0, C0]], metrics: true, listings: true },
  starts: [{ ops: [dep(A0, 90n * F), appr(A0, C0, 2n * F, { expires_at: T0 + 10n })] }],
  alphabet(node, d, { alw, now, pending }) {
    const w = alw(A0, B0);
    const ops = [appr(A0, B0, 4n * F, { expires_at: T0 + 10n }), appr(A0, B0, 5n * F, { expires_at: T0 + 20n }), appr(A0, B0, 4n * F), appr(A0, B0, 0n)];
    for (const x of pos([w - F])) { ops.push(from(B0, A0, C0, x)); if (!pending.length) ops.push(wdf(B0, A0, CANISTER, x)); }
    if (w > 3n * F) ops.push(from(B0, A0, C0, F));
    if (pending.length) ops.push(settle(0, rej(4))); else ops.push({ upgrade: null });
    if (now < T0 + 20n) ops.push(adv(10n));
    return ops;
  },
});

exports.deepdup = env => worldSuite(env, 'deepdup', {
  note: 'one transfer, approval, withdrawal and creation with the same creation time, repeated, settled both ways, across the end of the window and upgrades; every history, no merging',
  depth: { quick: 5, thorough: 6 }, merge: false,
  world: { accounts: [A0, B0, C0], pairs: [[A0, B0]], metrics: true },
  starts: [{ ops: [dep(A0, 90n * F)] }],
  alphabet(node, d, { now, pending }) {
    const k = { created_at_time: T0 };
    const ops = [xfer(A0, B0, F, k), appr(A0, B0, F, k), cc(A0, 2n * F, k), wd(A0, CANISTER, 2n * F, k), xfer(A0, B0, F)];
    if (pending.length) { const p = pending[0]; ops.push(settle(0, rej(4)), settle(0, p.kind === 'create' ? okc(CANISTER2) : OKW)); } else ops.push({ upgrade: null });
    const e = T0 + WINDOW + DRIFT;
    if (now < e) ops.push(adv(e - now)); else if (now === e) ops.push(adv(1n));
    return ops;
  },
});

exports.deepflow = env => worldSuite(env, 'deepflow', {
  note: 'deposit, transfers of everything and of a part, withdrawal and creation of everything and of a part, answers in any order, upgrades; every history, no merging',
  depth: { quick: 5, thorough: 6 }, merge: false,
  world: { accounts: [A0, B0], pairs: [], metrics: true },
  starts: [{ ops: [dep(A0, 9n * F + 5n)] }],
  alphabet(node, d, { bal, pending }) {
    const a = bal(A0), b = bal(B0);
    const ops = [dep(B0, 3n * F)];
    for (const x of pos([a - F])) { ops.push(xfer(A0, B0, x)); if (pending.length < 2) ops.push(wd(A0, CANISTER, x)); }
    for (const x of pos([b - F])) ops.push(xfer(B0, A0, x));
    if (a >= 4n * F) { ops.push(xfer(A0, B0, F)); if (pending.length < 2) ops.push(cc(A0, 2n * F + 1n)); }
    pending.forEach((p, i) => ops.push(settle(i, rej(4)), settle(i, p.kind === 'create' ? apart('1') : OKW)));
    if (!pending.length) ops.push({ upgrade: null });
    return ops;
  },
});

// ---- calls that stay open beyond the window -----------------------------------------
const edge = T0 + WINDOW + DRIFT;
exports.late = env => worldSuite(env, 'late', {
  note: 'creations and withdrawals with creation time and expiring approvals whose calls stay open to and beyond the end of the window and the expiry, answered before, between and after the operations that prune, then repeated',
  depth: { quick: 4, thorough: 5 },
  world: { accounts: [A0, B0, C0], pairs: [[A0, B0], [A0, C0]], metrics: true },
  starts: [
    { ops: [dep(A0, 90n * F), appr(A0, B0, 20n * F, { expires_at: edge }), cc(A0, 2n * F, { created_at_time: T0 }), ccf(B0, A0, 3n * F, { created_at_time: T0 })] },
    { ops: [dep(A0, 90n * F), appr(A0, B0, 20n * F, { expires_at: edge + 1n }), wd(A0, CANISTER, 2n * F, { created_at_time: T0 }), wdf(B0, A0, CANISTER, 3n * F, { created_at_time: T0 })] },
  ],
  alphabet(node, d, { now, pending }) {
    const ops = [xfer(A0, C0, F), xfer(A0, C0, F, { created_at_time: now })];
    pending.forEach((p, i) => ops.push(settle(i, rej(4)), settle(i, p.kind === 'create' ? okc(CANISTER2) : OKW)));
    ops.push(cc(A0, 2n * F, { created_at_time: T0 }), wd(A0, CANISTER, 2n * F, { created_at_time: T0 }), ccf(B0, A0, 3n * F, { created_at_time: T0 }));
    for (const t of [edge - 1n, edge, edge + 1n]) if (t > now) ops.push(adv(t - now));
    if (!pending.length) ops.push({ upgrade: null });
    return ops;
  },
});

// ---- from a nanosecond to the end of time --------------------------------------------
const YEAR = 365n * 24n * 3600n * 10n ** 9n, LAST = (1n << 64n) - 1n;
const SPANS = [1n, 10n ** 9n, 60n * 10n ** 9n, 3600n * 10n ** 9n, 24n * 3600n * 10n ** 9n, 30n * 24n * 3600n * 10n ** 9n, YEAR, 2n * YEAR, 10n * YEAR, 100n * YEAR, 400n * YEAR];
const sq = i => c.acc(c.P(0x2000 + i));
exports.ages = env => worldSuite(env, 'ages', {
  note: 'approvals that expire after 1 ns, 1 s, 1 min, 1 h, 1 d, 30 d, 1, 2, 10, 100, 400 years, at the last and the last but one nanosecond; time advanced to, just before and beyond each; use, renewal, revocation, listing, pruning, requests relative to the new time, calls answered years later, upgrades',
  depth: { quick: 3, thorough: 4 },
  world: { accounts: [A0, B0, C0, sq(0)], pairs: [[A0, B0], [A0, C0], ...SPANS.map((_, i) => [A0, sq(i)]), [A0, sq(20)], [A0, sq(21)]], metrics: true, listings: true },
  starts: [
    { ops: [dep(A0, 900n * F), appr(A0, B0, 50n * F), ...SPANS.map((t, i) => appr(A0, sq(i), (6n + BigInt(i)) * F, { expires_at: T0 + t })), appr(A0, sq(20), 7n * F, { expires_at: LAST - 1n }), appr(A0, sq(21), 8n * F, { expires_at: LAST })] },
    { ops: [dep(A0, 900n * F), appr(A0, B0, 50n * F, { expires_at: T0 + 10n * YEAR }), appr(A0, C0, 50n * F), wd(A0, CANISTER, 3n * F, { created_at_time: T0 }), wdf(B0, A0, CANISTER, 3n * F), ccf(B0, A0, 3n * F, { created_at_time: T0 }), wdf(C0, A0, CANISTER, 3n * F), ccf(C0, A0, 4n * F)] },
  ],
  alphabet(node, d, { now, pending }) {
    const ops = [];
    const to = t => { if (t > now && t < LAST) ops.push(adv(t - now)); };
    if (d === 0) { for (const s of SPANS) { to(T0 + s - 1n); to(T0 + s); to(T0 + s + 1n); } to(LAST - 2n); to(LAST - 1n); }
    else { const s = SPANS.map(x => T0 + x).find(x => x > now); if (s) { to(s - 1n); to(s); } }
    ops.push(xfer(A0, C0, F), xfer(A0, C0, F, { created_at_time: now }), xfer(A0, C0, F, { created_at_time: T0 }), dep(A0, 3n * F), { upgrade: null });
    if (pending.length) ops.pop();
    const i = SPANS.findIndex(x => T0 + x > now), near = [i - 1, i].filter(k => k >= 0 && k < SPANS.length);
    for (const k of near) ops.push(from(sq(k), A0, C0, F), appr(A0, sq(k), 9n * F, { expires_at: now + SPANS[k] < LAST ? now + SPANS[k] : LAST }), appr(A0, sq(k), 9n * F), appr(A0, sq(k), 0n));
    ops.push(from(sq(20), A0, C0, F), from(sq(21), A0, C0, F), appr(A0, B0, 5n * F, { expires_at: LAST }), appr(A0, B0, 5n * F, { expires_at: now }), wdf(B0, A0, CANISTER, 2n * F));
    pending.forEach((p, k) => ops.push(settle(k, rej(4)), settle(k, p.kind === 'create' ? okc(CANISTER2) : OKW)));
    return ops;
  },
});
