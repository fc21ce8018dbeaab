'use strict';
// Typed access to the ledger's Candid interface on top of ic.js.
const C = require('./candid.js');

const Account = { record: { owner: 'principal', subaccount: { opt: 'blob' } } };
const optNat = { opt: 'nat' }, optBlob = { opt: 'blob' }, optU64 = { opt: 'nat64' };
const CanisterSettings = {
  record: {
    controllers: { opt: { vec: 'principal' } }, compute_allocation: optNat, memory_allocation: optNat,
    freezing_threshold: optNat, reserved_cycles_limit: optNat, wasm_memory_limit: optNat, wasm_memory_threshold: optNat,
    log_visibility: { opt: { variant: { controllers: 'null', public: 'null', allowed_viewers: { vec: 'principal' } } } },
    environment_variables: { opt: { vec: { record: { name: 'text', value: 'text' } } } },
  },
};
const CmcArgs = {
  record: {
    subnet_selection: { opt: { variant: { Filter: { record: { subnet_type: { opt: 'text' } } }, Subnet: { record: { subnet: 'principal' } } } } },
    settings: { opt: CanisterSettings },
  },
};
const UpgradeArgs = { record: { max_blocks_per_request: optU64, change_index_id: { opt: { variant: { Unset: 'null', SetTo: 'principal' } } } } };
const LedgerArgs = {
  variant: {
    Init: { record: { max_blocks_per_request: 'nat64', index_id: { opt: 'principal' }, initial_balances: { opt: { vec: { record: { 0: Account, 1: 'nat' } } } } } },
    Upgrade: { opt: UpgradeArgs },
  },
};
const ARGS = {
  icrc1_balance_of: [Account],
  icrc2_allowance: [{ record: { account: Account, spender: Account } }],
  icrc103_get_allowances: [{ record: { from_account: { opt: Account }, prev_spender: { opt: Account }, take: optNat } }],
  icrc3_get_blocks: [{ vec: { record: { start: 'nat', length: 'nat' } } }],
  icrc3_get_archives: [{ record: { from: { opt: 'principal' } } }],
  http_request: [{ record: { url: 'text', method: 'text', body: 'blob', headers: { vec: { record: { 0: 'text', 1: 'text' } } } } }],
  deposit: [{ record: { to: Account, memo: optBlob } }],
  icrc1_transfer: [{ record: { from_subaccount: optBlob, to: Account, amount: 'nat', fee: optNat, memo: optBlob, created_at_time: optU64 } }],
  icrc2_approve: [{ record: { from_subaccount: optBlob, spender: Account, amount: 'nat', expected_allowance: optNat, expires_at: optU64, fee: optNat, memo: optBlob, created_at_time: optU64 } }],
  icrc2_transfer_from: [{ record: { spender_subaccount: optBlob, from: Account, to: Account, amount: 'nat', fee: optNat, memo: optBlob, created_at_time: optU64 } }],
  withdraw: [{ record: { amount: 'nat', from_subaccount: optBlob, to: 'principal', created_at_time: optU64 } }],
  withdraw_from: [{ record: { spender_subaccount: optBlob, from: Account, to: 'principal', amount: 'nat', created_at_time: optU64 } }],
  create_canister: [{ record: { from_subaccount: optBlob, created_at_time: optU64, amount: 'nat', creation_args: { opt: CmcArgs } } }],
  create_canister_from: [{ record: { from: Account, spender_subaccount: optBlob, created_at_time: optU64, amount: 'nat', creation_args: { opt: CmcArgs } } }],
};
const NONE = [];
const CmcReply = [{ variant: { Ok: 'principal', Err: { variant: { Refunded: { record: { refund_amount: 'nat', create_error: 'text' } }, RefundFailed: { record: { create_error: 'text', refund_error: 'text' } } } } } }];
const INIT = [LedgerArgs];
const OPTINIT = [{ opt: LedgerArgs }];

const argCache = new Map();
function encArgs(method, a) {
  const t = ARGS[method] || NONE;
  return C.encode(t, t.length ? [a] : []);
}
function query(sim, s, method, a, caller) {
  const r = sim.query(s, method, encArgs(method, a), caller);
  if (r.reject) return { reject: r.reject, msg: r.msg };
  return { ok: C.decode(r.reply, method)[0] };
}
// the same query on many states: the encoded argument is kept
function enc(method, a) {
  const k = method + '|' + JSON.stringify(a, (_, v) => (typeof v === 'bigint' ? `${v}n` : v));
  let e = argCache.get(k);
  if (!e) argCache.set(k, e = encArgs(method, a));
  return e;
}
let last = null;
function queryEnc(sim, s, method, e, caller) {
  const r = sim.query(s, method, e, caller);
  last = r.reply;
  if (r.reject) return { reject: r.reject, msg: r.msg };
  return { ok: C.decode(r.reply, method)[0] };
}
const initArg = x => C.encode(INIT, [{ Init: { max_blocks_per_request: 100n, index_id: null, initial_balances: null, ...x } }]);
const upgradeArg = x => C.encode(OPTINIT, [x === null ? null : { Upgrade: x }]);
const rawLedgerArg = x => C.encode(INIT, [x]);
const rawOptLedgerArg = x => C.encode(OPTINIT, [x]);
const cmcReply = v => C.encode(CmcReply, [v]);
const emptyReply = C.encode([], []);
function decodeReply(method, bytes) { return C.decode(bytes, 'r:' + method)[0]; }

module.exports = { encArgs, enc, query, queryEnc, initArg, upgradeArg, rawLedgerArg, rawOptLedgerArg, cmcReply, emptyReply, decodeReply, lastReply: () => last, C, ARGS };
