'use strict';
const c = require('./common.js');
const { F, T0, A, B, C, D, A0, A1, A2, B0, B1, C0, D0, CANISTER, CANISTER2, dep, xfer, appr, from, wd, wdf, cc, ccf, adv, settle, OKW, rej, okc, refunded, kept, apart, refundFailed, pos, worldSuite } = c;

// ---- value flow: every endpoint that moves cycles, at the boundaries ---------------
const flowDef = env => ({
  note: 'deposit, transfer, approve, transfer_from, withdraw, create_canister (+_from) and their settlement; amounts at balance−fee and allowance−fee, one more, 0, 1',
  depth: { quick: 3, thorough: 4 },
  world: { accounts: [A0, A1, B0, C0], pairs: [[A0, B0], [A0, C0], [A1, B0], [B0, A0], [A0, A1], [A1, A0]] },
  starts: [
    { ops: [] },
    { ops: [dep(A0, 6n * F + 7n)] },
    { ops: [dep(A0, 6n * F), dep(B0, 4n * F), appr(A0, B0, 3n * F)] },
    { ops: [dep(A0, 9n * F), dep(A1, 4n * F), dep(B0, 3n * F), appr(A0, B0, 20n * F), appr(A1, B0, 2n * F + 1n), wd(A0, CANISTER, 2n * F)] },
  ],
  alphabet(node, d, { bal, alw, pending }) {
    const ops = [dep(A0, 3n * F), dep(B0, F + 1n), dep(A1, F)];
    const a = bal(A0), b = bal(B0), a1 = bal(A1);
    for (const x of pos([0n, 1n, a - F, a - F + 1n])) ops.push(xfer(A0, B0, x));
    for (const x of pos([a - F])) ops.push(xfer(A0, A0, x), xfer(A0, A1, x, { fee: F }));
    for (const x of pos([a1 - F])) ops.push(xfer(A1, A0, x));
    for (const x of pos([b - F, b - F + 1n])) ops.push(xfer(B0, C0, x));
    for (const x of [0n, 2n * F + 3n]) ops.push(appr(A0, B0, x));
    ops.push(appr(A1, B0, 1n << 130n), appr(A0, C0, F), appr(B0, A0, 5n * F), appr(A0, A1, F));
    const w = alw(A0, B0);
    for (const x of pos([0n, w - F, w - F + 1n, a - F])) ops.push(from(B0, A0, C0, x), wdf(B0, A0, CANISTER, x), ccf(B0, A0, x));
    ops.push(from(B0, A0, B0, 1n), from(B0, A0, A0, 1n), from(C0, A0, C0, 0n), from(A0, A0, B0, 1n), from(A1, A0, B0, 1n));
    for (const x of pos([alw(A1, B0) - F])) ops.push(from(B0, A1, B0, x));
    for (const x of pos([0n, a - F, a - F + 1n])) ops.push(wd(A0, CANISTER, x), cc(A0, x));
    for (const x of pos([a1 - F])) ops.push(wd(A1, CANISTER, x), cc(A1, x));
    pending.forEach((p, i) => {
      ops.push(settle(i, rej(4)));
      if (p.kind === 'create') ops.push(settle(i, okc(CANISTER)), settle(i, refunded('all')), settle(i, apart('1')), settle(i, kept()));
      else ops.push(settle(i, OKW));
    });
    return ops;
  },
});
exports.flow = env => worldSuite(env, 'flow', flowDef(env));

// ---- approvals and time -------------------------------------------------------------
const exps = now => [null, now, now + 1n, now + 10n];
const allowWorld = { accounts: [A0, A1, B0, B1, C0], pairs: [[A0, B0], [A0, B1], [A0, C0], [A1, B0], [B0, A0]], listings: true };
const allowDef = env => ({
  note: 'approve with expiry absent, now, now+1, now+10, expected_allowance right or wrong; spending up to and beyond the allowance through the three spending calls; clock steps to one before, at and after each expiry; upgrade',
  depth: { quick: 3, thorough: 4 },
  world: allowWorld,
  starts: [
    { ops: [dep(A0, 20n * F)] },
    { ops: [dep(A0, 20n * F), dep(A1, 5n * F), appr(A0, B0, 4n * F, { expires_at: T0 + 10n }), appr(A0, C0, 3n * F), appr(A1, B0, 2n * F, { expires_at: T0 + 5n })] },
    { ops: [dep(A0, 20n * F), appr(A0, B0, 5n * F, { expires_at: T0 + 5n }), appr(A0, B1, 5n * F, { expires_at: T0 + 5n }), wdf(B0, A0, CANISTER, 3n * F)] },
  ],
  alphabet(node, d, { bal, alw, now, pending }) {
    const ops = [];
    const w = alw(A0, B0);
    for (const e of exps(now)) ops.push(appr(A0, B0, 3n * F, { expires_at: e }));
    ops.push(appr(A0, B0, 0n), appr(A0, B0, 0n, { expires_at: now + 10n }), appr(A0, B0, 2n * F, { expected_allowance: w }), appr(A0, B0, 2n * F, { expected_allowance: w + 1n }));
    ops.push(appr(A0, B1, 2n * F, { expires_at: now + 1n }), appr(A0, C0, 3n * F, { expected_allowance: 0n }), appr(A1, B0, 2n * F, { expires_at: now + 10n }), appr(B0, A0, F));
    for (const x of pos([w - F, w - F + 1n, 0n])) ops.push(from(B0, A0, C0, x));
    for (const x of pos([w - F, w - F - 1n])) ops.push(wdf(B0, A0, CANISTER, x), ccf(B0, A0, x));
    ops.push(from(B1, A0, C0, F), from(C0, A0, C0, F), from(B0, A1, A0, F));
    pending.forEach((p, i) => ops.push(settle(i, rej(2))));
    const i = [[A0, B0], [A1, B0], [A0, B1]];
    const steps = new Set([1n]);
    node.o.alw.forEach(x => { if (x.e !== null) { steps.add(x.e - now); if (x.e - now > 1n) steps.add(x.e - now - 1n); } });
    for (const s of steps) ops.push(adv(s));
    if (!pending.length) ops.push({ upgrade: null });
    return ops;
  },
});
exports.allow = env => worldSuite(env, 'allow', allowDef(env));

// ---- in flight: what may happen while cycles are out -----------------------------------
const failures = [rej(1), rej(2), rej(3), rej(4), rej(5), rej(6)];
const inflightDef = env => ({
  note: 'withdraw and create_canister (+_from), up to three of them open at once, every failure and success of the outgoing call in every order, with transfers, approvals (changed, revoked, expired), and clock steps in between; outgoing calls that cannot be made',
  depth: { quick: 3, thorough: 4 },
  world: { accounts: [A0, A1, B0, C0], pairs: [[A0, B0], [A0, C0], [A1, B0]] },
  starts: [
    { ops: [dep(A0, 20n * F), dep(A1, 6n * F), appr(A0, B0, 12n * F, { expires_at: T0 + 10n }), appr(A1, B0, 6n * F)] },
    { ops: [dep(A0, 9n * F), appr(A0, B0, 4n * F), wdf(B0, A0, CANISTER, 3n * F), wd(A0, CANISTER, 2n * F)] },
    { ops: [dep(A0, 20n * F), appr(A0, B0, 9n * F, { expires_at: T0 + 10n }), ccf(B0, A0, 2n * F + 1n), cc(A0, 3n * F), wdf(B0, A0, CANISTER, 2n * F)] },
    { ops: [dep(A0, 12n * F), appr(A0, B0, 9n * F), wdf(B0, A0, CANISTER, F), ccf(B0, A0, F + 1n), ccf(B0, A0, 2n * F)] },
  ],
  alphabet(node, d, { bal, alw, now, pending }) {
    const ops = [];
    const a = bal(A0), w = alw(A0, B0);
    pending.forEach((p, i) => {
      if (d === 0 || (pending.length === 1 && d < 2)) for (const r of failures) ops.push(settle(i, r)); else ops.push(settle(i, rej(4)));
      if (p.kind === 'create') {
        ops.push(settle(i, okc(CANISTER2)), settle(i, refunded('all')), settle(i, refunded('1')), settle(i, refundFailed), settle(i, { garbage: true }), settle(i, { garbage: true, back: 0n }), settle(i, kept()), settle(i, apart('all')));
        if (d === 0) for (const x of [1n, F, F + 1n, 2n * F, 2n * F + 1n]) ops.push(settle(i, kept(x)), settle(i, apart(x)));
        for (const x of [0n, F, F + 1n, 2n * F, 2n * F + 1n]) ops.push(settle(i, refunded(x)));
      } else ops.push(settle(i, OKW));
    });
    if (pending.length < 3) {
      ops.push(wd(A0, CANISTER, F), wd(A0, CANISTER, F + 1n), cc(A0, 2n * F), wdf(B0, A1, CANISTER, 2n * F), ccf(B0, A1, 2n * F + 1n));
      for (const x of pos([a - F])) ops.push(wd(A0, CANISTER, x), cc(A0, x));
      for (const x of pos([w - F])) ops.push(wdf(B0, A0, CANISTER, x), ccf(B0, A0, x));
      const perform = { faults: { perform: 2 } }, low = { faults: { liquid: 1n } };
      ops.push(wd(A0, CANISTER, 2n * F, {}, perform), cc(A0, 2n * F, {}, perform), wdf(B0, A0, CANISTER, 2n * F + 1n, {}, perform), ccf(B0, A0, 2n * F + 1n, {}, perform));
      ops.push(wd(A0, CANISTER, 2n * F, {}, low), wdf(B0, A1, CANISTER, 2n * F, {}, low));
    }
    ops.push(appr(A0, B0, 0n), appr(A0, B0, F), appr(A0, B0, 3n * F, { expires_at: now + 5n }), appr(A0, B0, (1n << 128n) - 1n));
    for (const x of pos([a - F])) ops.push(xfer(A0, C0, x));
    ops.push(dep(A0, 3n * F), from(B0, A0, C0, F), adv(5n), adv(9n), adv(10n));
    return ops;
  },
});
exports.inflight = env => worldSuite(env, 'inflight', inflightDef(env));

// ---- deduplication ------------------------------------------------------------------
const { WINDOW, DRIFT, U128 } = require('../lib/world.js');
const ANYTHING = [A0, A1, B0, B1, C0];
const dedupWorld = { accounts: [A0, A1, B0, B1, C0], pairs: [[A0, B0], [A0, B1], [A0, C0], [A1, B0], [A1, C0]], metrics: true };
const rich = [dep(A0, 400n * F), dep(A1, 400n * F), dep(B0, 400n * F), appr(A0, B0, 150n * F), appr(A0, B1, 150n * F), appr(A1, B0, 150n * F), appr(A0, C0, 150n * F)];
const M1 = '01', M2 = '02';
// requests that differ in one field only; none may be taken for another
function requestGroups(t) {
  const k = { created_at_time: t };
  const one = { settings: { controllers: [B] } };
  return [
    [xfer(A0, B0, F, k), xfer(A0, B0, F + 1n, k), xfer(A0, C0, F, k), xfer(A1, B0, F, k), xfer(A0, B1, F, k), xfer(A0, B0, F, { ...k, fee: F }), xfer(A0, B0, F, { ...k, memo: M1 }), xfer(A0, B0, F, { ...k, memo: M2 }), xfer(A0, B0, F, { ...k, memo: '' }), xfer(A0, B0, F, { created_at_time: t + 1n }), xfer(A0, B0, F)],
    [from(B0, A0, C0, F, k), from(B0, A0, C0, F + 1n, k), from(B0, A1, C0, F, k), from(B0, A0, A1, F, k), from(B1, A0, C0, F, k), from(C0, A0, C0, F, k), from(B0, A0, C0, F, { ...k, fee: F }), from(B0, A0, C0, F, { ...k, memo: M1 }), from(B0, A0, C0, F, { created_at_time: t + 1n }), from(B0, A0, C0, F), from(A0, A0, C0, F, k)],
    [appr(A0, B0, 2n * F, k), appr(A0, B0, 2n * F + 1n, k), appr(A0, C0, 2n * F, k), appr(A0, B1, 2n * F, k), appr(A1, B0, 2n * F, k), appr(A0, B0, 2n * F, { ...k, fee: F }), appr(A0, B0, 2n * F, { ...k, memo: M1 }), appr(A0, B0, 2n * F, { ...k, expires_at: t + 2n * WINDOW }), appr(A0, B0, 2n * F, { ...k, expires_at: t + 2n * WINDOW + 1n }), appr(A0, B0, 2n * F, { ...k, expected_allowance: 2n * F }), appr(A0, B0, 2n * F, { created_at_time: t + 1n }), appr(A0, B0, 2n * F)],
    [wd(A0, CANISTER, 2n * F, k), wd(A0, CANISTER, 2n * F + 1n, k), wd(A0, CANISTER2, 2n * F, k), wd(A1, CANISTER, 2n * F, k), wd(A0, CANISTER, 2n * F, { created_at_time: t + 1n }), wd(A0, CANISTER, 2n * F)],
    [wdf(B0, A0, CANISTER, 3n * F, k), wdf(B0, A0, CANISTER, 3n * F + 1n, k), wdf(B0, A0, CANISTER2, 3n * F, k), wdf(B0, A1, CANISTER, 3n * F, k), wdf(B1, A0, CANISTER, 3n * F, k), wdf(C0, A0, CANISTER, 3n * F, k), wdf(B0, A0, CANISTER, 3n * F, { created_at_time: t + 1n }), wdf(B0, A0, CANISTER, 3n * F), wdf(A0, A0, CANISTER, 3n * F, k)],
    [cc(A0, 2n * F, k), cc(A0, 2n * F + 1n, k), cc(A1, 2n * F, k), cc(A0, 2n * F, { created_at_time: t + 1n }), cc(A0, 2n * F)],
    [ccf(B0, A0, 3n * F, k), ccf(B0, A0, 3n * F + 1n, k), ccf(B0, A1, 3n * F, k), ccf(B1, A0, 3n * F, k), ccf(C0, A0, 3n * F, k), ccf(B0, A0, 3n * F, { created_at_time: t + 1n }), ccf(B0, A0, 3n * F), ccf(A0, A0, 3n * F, k)],
  ];
}
const GROUPS = requestGroups(T0), ALLREQ = GROUPS.flat();
const dedupDef = env => ({
  note: 'every request of seven endpoints with created_at_time, and each variant that differs in one field, in pairs and repeated, with upgrades, settlements, failures and clock steps to the edges of the window in between',
  depth: { quick: 3, thorough: 4 },
  world: dedupWorld,
  starts: [{ ops: rich }],
  alphabet(node, d, { now, pending }) {
    if (d === 0) return ALLREQ;
    const ops = [];
    const kinds = new Set();
    for (const [k] of node.g.dedup) kinds.add(JSON.parse(k)[0] + (JSON.parse(k)[2] ? 'f' : ''));
    if (d === 1) ops.push(...ALLREQ);
    else GROUPS.forEach(g => { const m = g[0].m; const k = ({ icrc1_transfer: 'xfer', icrc2_transfer_from: 'xferf', icrc2_approve: 'approvef', withdraw: 'withdraw', withdraw_from: 'withdrawf', create_canister: 'create', create_canister_from: 'createf' })[m]; if (kinds.has(k)) ops.push(...g.slice(0, 4)); });
    if (d <= 1 || env.tier === 'thorough') {
      const edge = T0 + WINDOW + DRIFT;
      for (const t of [T0 + 1n, edge - 1n, edge, edge + 1n, edge + 2n]) if (t > now) ops.push(adv(t - now));
      if (!pending.length) ops.push({ upgrade: null });
    }
    pending.forEach((p, i) => { ops.push(settle(i, rej(4))); if (p.kind === 'create') ops.push(settle(i, okc(CANISTER2)), settle(i, refunded('all')), settle(i, refundFailed)); else ops.push(settle(i, OKW)); });
    return ops;
  },
});
exports.dedup = env => worldSuite(env, 'dedup', dedupDef(env));

// ---- the time window, to the nanosecond --------------------------------------------------
const TIMES = [T0, 5_000_000_000n, WINDOW + DRIFT, WINDOW + DRIFT + 1n, (1n << 64n) - 1n - DRIFT / 2n];
const windowDef = env => ({
  note: 'created_at_time at, just inside and just outside both ends of the window, for seven endpoints, at ordinary times, times younger than the window and times close to 2^64; each accepted request again after clock steps to its end',
  depth: { quick: 3, thorough: 3 },
  world: { accounts: ANYTHING, pairs: dedupWorld.pairs, metrics: true },
  starts: TIMES.map(time => ({ time, ops: rich })),
  alphabet(node, d, { now, pending }) {
    const first = [...node.g.dedup.values()][0];
    const edge = [now - WINDOW - DRIFT - 1n, now - WINDOW - DRIFT, now - WINDOW - DRIFT + 1n, now - WINDOW - 1n, now - WINDOW, now - 1n, now, now + 1n, now + DRIFT, now + DRIFT + 1n, 0n, (1n << 64n) - 1n].filter(x => x >= 0n && x < 1n << 64n);
    const reqs = t => requestGroups(t).map(g => g[0]);
    if (d === 0) return [...new Set(edge)].flatMap(reqs);
    if (d === 1) {
      if (!first) return [];
      const e = first.cat + WINDOW + DRIFT;
      return [...new Set([first.cat - DRIFT, e - 1n, e, e + 1n])].filter(t => t > now && t < 1n << 64n).map(t => adv(t - now)).concat(reqs(first.cat));
    }
    return first ? reqs(first.cat) : [];
  },
});
exports.window = env => worldSuite(env, 'window', windowDef(env));

// ---- nothing gets stuck -----------------------------------------------------------------
exports.exits = env => {
  const defs = [flowDef, allowDef, inflightDef, dedupDef].map(d => d(env));
  const parts = defs.flatMap(d => d.starts.map(start => ({ start, d })));
  const accounts = [], pairs = [];
  for (const d of defs) { accounts.push(...d.world.accounts); pairs.push(...d.world.pairs); }
  return worldSuite(env, 'exits', {
    note: 'the starts and alphabets of flow, allow, inflight and dedup; in every state each account is emptied by transfer, withdrawal and creation, each allowance used up and revoked, and each open call ended',
    depth: { quick: 2, thorough: 3 },
    world: { accounts, pairs, exits: true },
    starts: parts.map(p => p.start),
    alphabet(node, d, h) { return parts[node.g.tag].d.alphabet(node, d, h); },
  });
};
