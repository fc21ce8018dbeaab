'use strict';
// which suites decide a property, and which of their rules belong to it
module.exports = {
  C01: { suites: ['flow', 'inflight', 'install', 'p_transfer', 'deepflow', 'wide', 'upgrade', 'allow', 'rounds', 'big'], cats: ['sum', 'supply', 'accept:GenericError:overflow', 'accept:overflow', 'metric', 'init', 'solvency', 'bal'] },
  C02: { suites: ['flow', 'inflight', 'p_out', 'minting', 'deepflow', 'wide', 'late', 'upgrade', 'rounds'], cats: ['solvency', 'call', 'supply', 'sum', 'settle'] },
  C03: { suites: ['flow', 'p_transfer', 'p_spend', 'wide', 'spelling', 'deepflow', 'special', 'p_approve', 'p_out'], cats: ['bal', 'frame', 'alw', 'alwframe', 'supply', 'auth'] },
  C04: { suites: ['refusals', 'flow', 'p_out', 'p_transfer', 'p_approve', 'p_spend', 'window', 'dedup', 'special'], cats: ['noeffect', 'frame', 'prec:Duplicate', 'refuse:Duplicate'] },
  C05: { suites: ['flow', 'allow', 'p_spend', 'p_approve', 'wide', 'spelling', 'inflight', 'deepallow', 'special', 'p_out'], cats: ['auth', 'accept:InsufficientAllowance', 'accept:InsufficientFunds', 'accept:self', 'accept:GenericError:denied', 'frame'] },
  C06: { suites: ['allow', 'p_approve', 'spelling', 'deepallow', 'wide', 'upgrade'], cats: ['alw', 'alwframe', 'accept:AllowanceChanged', 'refuse:AllowanceChanged', 'missed:AllowanceChanged', 'payload:AllowanceChanged', 'accept:self', 'listing', 'replay', 'expiry'] },
  C07: { suites: ['allow', 'inflight', 'scale', 'deepallow', 'p_spend', 'ages', 'late'], cats: ['expiry', 'alw', 'alwframe', 'listing', 'accept:InsufficientAllowance', 'accept:Expired', 'missed:Expired', 'refuse:Expired', 'payload:Expired', 'refuse:InsufficientAllowance', 'payload:InsufficientAllowance', 'accept:AllowanceChanged', 'refuse:AllowanceChanged', 'payload:AllowanceChanged', 'settle', 'replay', 'prune'] },
  C08: { suites: ['dedup', 'window', 'txscale', 'late', 'deepdup', 'rounds', 'special', 'big'], cats: ['accept:Duplicate', 'refuse:Duplicate', 'missed:Duplicate', 'payload:Duplicate', 'prec:Duplicate', 'dupcanister', 'upgrade', 'prune'] },
  C09: { suites: ['window', 'txscale', 'refusals', 'late', 'dedup'], cats: ['accept:TooOld', 'accept:CreatedInFuture', 'refuse:TooOld', 'refuse:CreatedInFuture', 'missed:TooOld', 'missed:CreatedInFuture', 'payload:CreatedInFuture', 'trap', 'refused'] },
  C10: { suites: ['flow', 'inflight', 'allow', 'p_spend', 'deepallow', 'wide', 'late', 'spelling', 'upgrade', 'deepflow', 'p_out', 'p_transfer', 'p_approve', 'scale', 'rounds'], cats: ['replay', 'len', 'block'] },
  C11: { suites: ['longlog', 'flow', 'upgrade', 'ranges', 'inflight', 'deepflow', 'install'], cats: ['chain', 'cert', 'append', 'upgrade', 'noeffect'] },
  C12: { suites: ['ranges', 'longlog', 'install', 'big'], cats: ['range', 'query', 'append'] },
  C13: { suites: ['inflight', 'p_out', 'flow', 'late', 'deepflow', 'wide', 'upgrade', 'special', 'ages'], cats: ['outcome', 'call', 'bal', 'alw', 'supply', 'settle', 'solvency', 'len', 'block', 'auth', 'frame', 'alwframe', 'replay', 'trap'], ops: ['withdraw', 'withdraw_from'] },
  C14: { suites: ['inflight', 'p_out', 'minting', 'dedup', 'late', 'wide', 'upgrade', 'special'], cats: ['outcome', 'call', 'bal', 'alw', 'supply', 'settle', 'solvency', 'len', 'block', 'auth', 'frame', 'alwframe', 'replay', 'trap', 'dupcanister'], ops: ['create_canister', 'create_canister_from'] },
  C15: { suites: ['inflight', 'flow', 'deepflow', 'wide', 'late', 'rounds'], cats: ['settle', 'outcome', 'bal', 'alw', 'frame', 'alwframe', 'supply', 'solvency', 'replay', 'auth', 'len', 'call'] },
  C16: { suites: ['upgrade', 'install', 'dedup', 'deepdup', 'wide', 'scale', 'deepallow', 'big'], cats: ['upgraded', 'upgrade', 'config', 'init', 'append', 'sum', 'cert', 'prec:Duplicate', 'accept:Duplicate', 'replay', 'expiry'] },
  C17: { suites: ['listing', 'allow', 'scale', 'spelling', 'deepallow', 'big'], cats: ['listing', 'query'] },
  C18: { suites: ['spelling', 'p_approve', 'p_transfer', 'p_spend', 'dedup'], cats: ['alias', 'bal', 'frame', 'alw', 'alwframe', 'auth', 'listing', 'replay', 'accept:self', 'refused'] },
  C19: { suites: ['p_transfer', 'p_approve', 'p_spend', 'p_out', 'refusals', 'flow', 'wide', 'rounds', 'special', 'window', 'big'], cats: ['accept', 'refuse', 'missed', 'payload', 'prec', 'trap', 'refused'] },
  C20: { suites: ['scale', 'txscale', 'late', 'deepallow', 'dedup', 'rounds', 'big', 'ages'], cats: ['prune', 'metric', 'alw', 'alwframe', 'expiry', 'accept:Duplicate', 'prec:Duplicate', 'replay'] },
  C21: { suites: ['p_transfer', 'p_approve', 'p_spend', 'p_out', 'inflight', 'wide', 'dedup', 'flow', 'scale', 'special'], cats: ['block', 'len', 'index', 'outcome'] },
  C22: { suites: ['depositor'], cats: ['depositor', 'index', 'bal', 'frame', 'sum', 'supply', 'solvency', 'accept:small', 'accept:memo', 'refused', 'block', 'len'] },
  C23: { suites: ['minting'], cats: ['minting', 'outcome', 'solvency', 'bal', 'supply', 'call', 'settle'] },
  C24: { suites: ['upgrade', 'install', 'scale', 'longlog', 'flow', 'rounds'], cats: ['facts', 'metric', 'config', 'http', 'index'] },
  C25: { suites: ['listing', 'ranges', 'inflight', 'upgrade', 'install', 'p_approve', 'flow', 'allow', 'spelling', 'late', 'deepflow', 'p_out', 'p_spend', 'ages', 'special'], cats: ['query', 'settle', 'upgrade', 'trap'] },
  C26: { suites: ['encodings'], cats: ['interface', 'encoding', 'accept', 'refuse', 'missed', 'payload', 'refused', 'query', 'init', 'upgrade', 'config', 'bal', 'alw', 'len', 'block', 'call', 'prec', 'dupcanister', 'replay', 'outcome', 'trap'] },
  C27: { suites: ['exits', 'rounds'], cats: ['exit', 'settle'] },
  C28: { suites: ['released'], cats: ['upgrade', 'config', 'facts', 'sum', 'replay', 'chain', 'cert', 'append', 'range', 'bal', 'frame', 'alw', 'alwframe', 'supply', 'expiry', 'listing', 'accept', 'refuse', 'missed', 'payload', 'prec', 'dupcanister', 'trap', 'refused', 'prune', 'metric', 'settle', 'outcome', 'block', 'len', 'call', 'query'] },
  C29: { suites: ['cost'], cats: ['cost'] },
};
