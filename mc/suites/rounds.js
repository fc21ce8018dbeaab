'use strict';
// Long lives: the same one or two things over and over, hundreds of times.
// Counters that are not taken back, tables that fill up, limits that are
// reached late show here, and nowhere in short histories.
const c = require('./common.js');
const { H, F, T0, P, SUB, acc, A, B, C, D, A0, A1, B0, B1, C0, CANISTER, CANISTER2, SELF_AUTH, ANON, MGMT, op, dep, xfer, appr, from, wd, wdf, cc, ccf, adv, settle, OKW, rej, okc, refunded, kept, apart, refundFailed, worldSuite, show } = c;
const { WINDOW, DRIFT, U128 } = require('../lib/world.js');
const sp = i => acc(P(0x1000 + i));
const HOUR = 3600n * 1_000_000_000n;
// one round of each: (round, view of the state) -> operations
const ROUND = {
  deposit: () => [dep(A0, 3n * F)],
  transfer: () => [xfer(A0, B0, 5n)],
  'transfer back and forth': () => [xfer(A0, B1, 7n * F), xfer(B1, A0, 6n * F)],
  'transfer to somebody new': i => [xfer(A0, sp(i), 1n)],
  'transfer to somebody new and of everything away': i => [xfer(A0, sp(i), F), xfer(sp(i), A0, 0n)],
  'transfer with time': (i, v) => [xfer(A0, B0, BigInt(i), { created_at_time: v.now })],
  'duplicate transfer': (i, v) => [xfer(A0, B0, 9n, { created_at_time: v.t0 }), xfer(A0, B0, 9n, { created_at_time: v.now - v.now % HOUR })],
  'too much': () => [xfer(A0, B0, 1n << 126n), wd(A0, CANISTER, 1n << 126n), cc(A0, 1n << 126n), ccf(B0, A0, 1n << 126n)],
  'bad fee': () => [xfer(A0, B0, 1n, { fee: 1n }), appr(A0, B0, 1n, { fee: 1n })],
  'trap': () => [dep(A0, F), xfer(A0, B0, 1n, { memo: 'aa'.repeat(33) })],
  'bad receiver': () => [wd(A0, SELF_AUTH, 3n * F), xfer(A0, acc(MGMT), 1n)],
  approve: i => [appr(A0, B0, 900n * F + BigInt(i))],
  'approve and revoke': () => [appr(A0, C0, 5n * F, { expires_at: T0 + 1000n * WINDOW }), appr(A0, C0, 0n)],
  'approve somebody new': (i, v) => [appr(A0, sp(i), F, i % 2 ? {} : { expires_at: v.now + 10n * WINDOW })],
  'approve for a moment': (i, v) => [appr(A0, sp(i % 7), F, { expires_at: v.now + 2n }), adv(2n)],
  'move the expiry': (i, v) => [appr(A0, B0, 900n * F, { expires_at: v.now + 10n * WINDOW + BigInt(i % 3) })],
  'spend in part': () => [from(B0, A0, C0, 5n)],
  'spend all of it': (i, v) => [appr(A0, C0, 3n * F, i % 2 ? {} : { expires_at: v.now + 5n }), from(C0, A0, C0, 2n * F)],
  'withdraw': () => [wd(A0, CANISTER, F), settle(-1, OKW)],
  'withdraw in vain': () => [wd(A0, CANISTER, 2n * F), settle(-1, rej(4))],
  'withdraw dust in vain': () => [wd(A0, CANISTER, F), settle(-1, rej(2))],
  'withdraw with time in vain': (i, v) => [wd(A0, CANISTER, 2n * F + BigInt(i), { created_at_time: v.now }), settle(-1, rej(5))],
  'withdraw for somebody': () => [wdf(B0, A0, CANISTER, F), settle(-1, OKW)],
  'withdraw for somebody in vain': () => [wdf(B0, A0, CANISTER, 4n * F), settle(-1, rej(1))],
  'withdraw without an answer yet': i => (i < 40 ? [wd(A0, CANISTER, 2n * F)] : [settle(0, i % 2 ? OKW : rej(4)), wd(A0, CANISTER, 2n * F)]),
  'create': () => [cc(A0, 2n * F), settle(-1, okc(CANISTER2))],
  'create in vain': () => [cc(A0, 3n * F), settle(-1, refunded('all'))],
  'create and lose it': () => [cc(A0, 2n * F), settle(-1, refundFailed)],
  'create and have it kept': () => [cc(A0, 3n * F), settle(-1, kept())],
  'create for somebody in vain': (i, v) => [ccf(B0, A0, 4n * F, { created_at_time: v.now + BigInt(i % 2) }), settle(-1, i % 3 ? refunded(2n * F + 1n) : rej(4))],
  'create for somebody': () => [ccf(B0, A0, F), settle(-1, okc(CANISTER))],
  'a moment': () => [adv(1n)],
  'an hour': () => [adv(HOUR)],
  upgrade: (i, v) => (v.pending ? [] : [{ upgrade: null }]),
};
const KEYS = Object.keys(ROUND);
exports.rounds = env => {
  const thorough = env.tier === 'thorough';
  const [one, two, after] = thorough ? [1500, 200, 150] : [520, 9, 6];
  const def = {
    note: `each of ${KEYS.length} things an owner, a spender or time can do, ${thorough ? 1500 : 520} times over, then each other one 6 (thorough 150) times; each ordered pair of them in turns, 9 (thorough 200) times; everything is judged after each operation, and at the end every way out is tried`,
    depth: { quick: 2, thorough: 2 },
    world: { accounts: [A0, A1, B0, B1, C0, sp(0), acc(MGMT)], pairs: [[A0, B0], [A0, C0], [A0, sp(3)]], metrics: true, open: true },
    starts: [{ ops: [dep(A0, 1_000_000n * F), dep(A1, 9n * F), dep(B0, 5000n * F), dep(C0, 5000n * F), appr(A0, B0, 100_000n * F)] }],
    alphabet: () => [],
  };
  const s = worldSuite(env, 'rounds', def);
  const w = s.world, step = s.step;
  const alone = KEYS.map(k => op({ rounds: one, of: [k] })), later = KEYS.map(k => op({ rounds: after, of: [k] }));
  const pairs = KEYS.flatMap(a => KEYS.filter(b => b !== a).map(b => op({ rounds: two, of: [a, b] })));
  const out = (n, findings) => { try { w.exits(n.s, n.o, n.g, findings); } catch (e) { findings.push({ cat: 'exit', msg: e.message }); } };
  return {
    ...s, merge: false,
    alphabet(node, d) { return d === 0 ? alone.concat(pairs) : node.last && node.last.of.length === 1 ? later : []; },
    step(node, o, leaf) {
      let n = node, resp = { ok: null }, changed = false;
      const base = node.turn || 0;
      for (let i = 0; i < o.rounds; i++) {
        for (const k of o.of) {
          for (let p of ROUND[k](base + i, { now: n.s.time, t0: T0, pending: n.g.pending.length })) {
            if (p.settle === -1) { if (!n.g.pending.length) continue; p = settle(n.g.pending.length - 1, p.out); }
            const r = step(n, p, false);
            if (!r.node) continue;
            if (r.findings.length) {
              const all = r.findings.slice();
              out(r.node, all);
              return { node: r.node, resp: r.resp, changed: true, findings: all.map(f => ({ ...f, msg: `round ${base + i} of ${o.of.join(', ')}: ${f.msg}` })) };
            }
            changed = changed || r.changed;
            n = r.node; resp = r.resp;
          }
        }
      }
      const findings = [];
      if (leaf || o.of.length === 2) {
        // every open call is answered and every way out tried
        while (n.g.pending.length) {
          const p = n.g.pending[0], r = step(n, settle(0, p.kind === 'create' ? refunded('all') : rej(4)), false);
          if (!r.node) break;
          findings.push(...r.findings);
          n = r.node;
        }
        if (!findings.length) out(n, findings);
      }
      n = { ...n, last: o, turn: base + o.rounds };
      return { node: n, resp, changed, findings };
    },
  };
};
