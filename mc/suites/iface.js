'use strict';
// The published interface: every method in every encoding of its argument.
const path = require('path');
const c = require('./common.js');
const Did = require('../lib/did.js');
const { F, T0, P, S, SUB, ZERO, acc, A, B, C, D, A0, A1, B0, B1, C0, CANISTER, CANISTER2, SELF_AUTH, ANON, L, op, dep, xfer, appr, from, wd, wdf, cc, ccf, adv, settle, OKW, rej, okc, refunded, kept, apart, worldSuite } = c;
const { U128, WINDOW, DRIFT } = require('../lib/world.js');

const settings = { controllers: [A, B], compute_allocation: 1n, memory_allocation: null, freezing_threshold: 1n << 70n, reserved_cycles_limit: null, wasm_memory_limit: 5n, wasm_memory_threshold: null, log_visibility: { allowed_viewers: [C] }, environment_variables: [{ name: 'a', value: 'b' }] };
const small = { controllers: null, compute_allocation: null, memory_allocation: null, freezing_threshold: null, reserved_cycles_limit: null, wasm_memory_limit: null, wasm_memory_threshold: null, log_visibility: { public: null }, environment_variables: [] };
const cargs = (s, sub) => ({ creation_args: { settings: s, subnet_selection: sub } });
const requests = t => {
  const k = { created_at_time: t };
  return [
    dep(A0, 3n * F), dep(A1, 3n * F + 1n, { memo: '0a' }), dep(acc(B, ZERO), 1n << 90n), dep(A0, F), dep(A0, 2n * F, { memo: '00'.repeat(33) }),
    xfer(A0, B0, F), xfer(A1, B1, F, { ...k, fee: F, memo: '' }), xfer(A0, B0, 1n << 100n), xfer(A0, acc(B, ZERO), F, { fee: 1n << 80n }),
    appr(A0, C0, 3n * F), appr(A0, B0, 1n << 99n, { ...k, expected_allowance: 20n * F, expires_at: t + 50n, fee: F, memo: '01' }), appr(A0, B0, 0n, { expected_allowance: 1n << 70n }), appr(A0, B0, F, { expires_at: t }),
    from(B0, A0, C0, F), from(B1, A1, C0, 2n * F, { ...k, fee: F, memo: '02' }), from(B0, A0, C0, 1n << 90n), from(C0, A0, C0, F),
    wd(A0, CANISTER, F), wd(A1, CANISTER2, 2n * F, k), wd(A0, SELF_AUTH, F), wd(A0, CANISTER, 1n << 77n),
    wdf(B0, A0, CANISTER, F), wdf(B1, A1, CANISTER, F, k), wdf(C0, A0, CANISTER, F),
    cc(A0, 2n * F), cc(A1, 2n * F, { ...k, ...cargs(settings, null) }), cc(A0, F, cargs(small, { Subnet: { subnet: P(5) } })), cc(A0, F, cargs(null, { Filter: { subnet_type: 'fiduciary' } })), cc(A0, F, cargs(null, { Filter: { subnet_type: null } })), cc(A0, 1n << 90n),
    ccf(B0, A0, 2n * F), ccf(B1, A1, 2n * F, { ...k, ...cargs(settings, { Filter: { subnet_type: null } }) }), ccf(C0, A0, F),
    xfer(A0, B0, F, { created_at_time: t - WINDOW - DRIFT - 1n }), wd(A0, CANISTER, F, { created_at_time: t + DRIFT + 1n }), cc(A0, F, { created_at_time: 0n }), appr(A0, A1, F),
  ];
};
const questions = [
  ['icrc1_balance_of', A0], ['icrc1_balance_of', acc(B, SUB(1))], ['icrc2_allowance', { account: A0, spender: B0 }], ['icrc2_allowance', { account: A1, spender: B1 }], ['icrc2_allowance', { account: C0, spender: A0 }],
  ...[[null, null, null], [A0, null, null], [null, B0, null], [A1, B0, 1n], [null, null, 0n], [A0, null, 1n << 70n]].map(([from_account, prev_spender, take]) => ['icrc103_get_allowances', { from_account, prev_spender, take }]),
  ['icrc3_get_blocks', []], ['icrc3_get_blocks', [{ start: 0n, length: 2n }, { start: 1n, length: 1n << 70n }]], ['icrc3_get_archives', { from: null }], ['icrc3_get_archives', { from: A }],
  ...['/metrics', '/logs', '/x'].map(url => ['http_request', { url, method: 'GET', body: '', headers: [] }]), ['http_request', { url: '/x', method: 'POST', body: 'ff00', headers: [['a', 'b'], ['c', '']] }],
  ...['icrc1_decimals', 'icrc1_fee', 'icrc1_metadata', 'icrc1_minting_account', 'icrc1_name', 'icrc1_symbol', 'icrc1_supported_standards', 'icrc1_total_supply', 'icrc3_get_tip_certificate', 'icrc3_supported_block_types', 'icrc10_supported_standards', 'icrc106_get_index_principal'].map(m => [m, null]),
];
const MODES = Object.keys(Did.MODES);
exports.encodings = env => {
  const did = Did.load(path.join(env.repo, 'cycles-ledger', 'cycles-ledger.did'));
  const types = m => did.methods[m].args.map(t => Did.plainType(did, t));
  const LA = Did.plainType(did, did.init[0]);
  const inits = [
    { max_blocks_per_request: 7n, index_id: null, initial_balances: null },
    { max_blocks_per_request: 7n, index_id: CANISTER, initial_balances: [[A0, 5n * F], [acc(B, SUB(1)), 1n << 90n]] },
    { max_blocks_per_request: 7n, index_id: null, initial_balances: [] },
  ];
  const rich = [dep(A0, 60n * F), dep(A1, 60n * F), dep(B0, 9n * F), appr(A0, B0, 20n * F), appr(A1, B1, 20n * F, { expires_at: T0 + 100n })];
  return worldSuite(env, 'encodings', {
    note: 'every method of the interface file, in its mode, its answers of the published types; requests that succeed, fail and are refused in nine encodings of their argument (fields of null left out, typed null or reserved, options given plain, unknown fields and arguments added, variants cut to the tag used) with the same outcome, in another encoding again, and in encodings that are not of the published type',
    depth: 2,
    world: { accounts: [A0, A1, B0, B1, C0, acc(C, S(1))], pairs: [[A0, B0], [A0, C0], [A1, B1], [C0, A0]], iface: did, metrics: true },
    starts: [
      { ops: rich },
      { ops: rich.concat([wd(A0, CANISTER, 2n * F), wdf(B0, A0, CANISTER, 3n * F), cc(A0, 2n * F), ccf(B0, A0, 3n * F)]) },
      ...inits.flatMap(x => MODES.map(m => ({ init: x, rawInit: Did.encode([LA], [{ Init: x }], m) }))),
      ...Did.wrong([LA], [{ Init: inits[0] }]).map(([, rawInit]) => ({ rawInit, initTraps: true })),
    ],
    alphabet(node, d, { now, pending }) {
      const ops = [];
      if (node.g.tag > 1) return d ? [] : [dep(A0, 2n * F)];
      if (d === 0) {
        for (const r of requests(now)) {
          for (const enc of MODES) ops.push(op({ ...r, enc }));
          for (const [wrong] of Did.wrong(types(r.m), [r.a])) ops.push(op({ ...r, wrong }));
        }
        for (const [ask, a] of questions) for (const by of ask === 'icrc103_get_allowances' ? [A, B, ANON] : [A]) ops.push(op({ ask, a, by }));
        pending.forEach((p, i) => ops.push(settle(i, rej(4)), ...(p.kind === 'create' ? [settle(i, okc(CANISTER2)), settle(i, refunded('all')), settle(i, refunded(0n))] : [settle(i, OKW)])));
        if (!pending.length) for (const u of [null, { max_blocks_per_request: null, change_index_id: null }, { max_blocks_per_request: 9n, change_index_id: { SetTo: B } }, { max_blocks_per_request: null, change_index_id: { Unset: null } }]) for (const enc of MODES) ops.push(op({ upgrade: u, enc }));
      } else {
        // an accepted request again, in another encoding; open calls end
        for (const [k, x] of node.g.dedup) { const cat = JSON.parse(k)[9]; requests(T0).forEach(r => { if (r.a.created_at_time === T0 && cat) for (const enc of ['bare', 'plain', 'extra', 'bare+plain+thin']) ops.push(op({ ...r, enc })); }); break; }
        pending.forEach((p, i) => { if (i === pending.length - 1) ops.push(settle(i, rej(4)), ...(p.kind === 'create' ? [settle(i, okc(CANISTER2)), settle(i, refunded('all'))] : [settle(i, OKW)])); });
      }
      return ops;
    },
  });
};
