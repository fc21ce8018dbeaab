'use strict';
// Several canisters: the depositor in front of the ledger, the stand-in for
// the cycles minting canister behind it. Every message between them is
// delivered separately, in any order. The ledger's part of each step is judged
// as in the other suites.
const c = require('./common.js');
const { Sim, L, W, H, World, F, T0, S, SUB, acc, A, B, C, D, A0, A1, B0, C0, D0, ZERO, CANISTER, CANISTER2, ANON, op, dep, xfer, appr, cc, ccf, adv, settle, rej, okc, refunded, show, key } = c;
const Cd = L.C;
const Account = { record: { owner: 'principal', subaccount: { opt: 'blob' } } };
const same = (x, y) => show(x) === show(y);

function base(env, name, def) {
  const h = H.sha(Buffer.from(name)).readUInt32LE(0);
  const outcomes = new Map();
  const sims = def.sims;
  return {
    depth: typeof def.depth === 'number' ? def.depth : def.depth[env.tier] ?? def.depth.quick,
    starts: def.starts, note: def.note, merge: true,
    init: def.init, alphabet: def.alphabet,
    step(node, o) {
      const Fd = [];
      let r;
      try { r = def.step(node, o, Fd); } catch (e) { if (!/^query .* was rejected/.test(e.message)) throw e; Fd.push({ cat: 'query', msg: e.message }); r = { node, resp: { trap: e.message } }; }
      const k = Object.keys(o)[0] + ':' + (r.resp.ok !== undefined ? 'ok' : r.resp.pending ? 'pending' : r.resp.err ? r.resp.err[0] : 'rejected');
      if (r.node) outcomes.set(k, (outcomes.get(k) || 0) + 1);
      return { ...r, findings: (r.findings || []).concat(Fd), changed: r.node !== node };
    },
    key(node) { const k = H.sha(Buffer.from(show(def.ident(node)))); return [k.readUInt32LE(0) ^ h, k.readUInt32LE(4)]; },
    digest(r) { return H.sha(Buffer.from(show([r.resp, r.node && def.ident(r.node)]))).toString('hex').slice(0, 24); },
    outcomes: () => outcomes,
    reset() { outcomes.clear(); for (const s of sims) s.count = { messages: 0, queries: 0, traps: 0 }; },
    counts() { const t = { messages: 0, queries: 0 }; for (const s of sims) { t.messages += s.count.messages; t.queries += s.count.queries; } return t; },
  };
}

// ---- depositor -> ledger -----------------------------------------------------------
const DEPOSITOR = '000000000000005d0101';
exports.depositor = env => {
  const ls = new Sim(env.modules.ledger), ds = new Sim(env.modules.depositor, DEPOSITOR);
  const w = new World(ls, { accounts: [A0, A1, B0, acc(DEPOSITOR), acc(ls.self)], pairs: [] });
  const argT = [{ record: { cycles: 'nat', to: Account, memo: { opt: 'blob' } } }];
  const resT = [{ record: { balance: 'nat', block_index: 'nat' } }];
  const OWN = [10n ** 13n, 3n * F, 1n << 72n], U64 = 1n << 64n;
  return base(env, 'depositor', {
    sims: [ls, ds],
    note: 'the depositor canister in front of the ledger: up to three deposits open at once for different accounts, amounts at and around the fee, memos of 0, 1, 32 and 33 bytes, amounts of 2^64 and more, more cycles than it has; requests and answers delivered in every order, and requests lost by the system',
    depth: { quick: 5, thorough: 6 }, starts: 3,
    init(i) {
      const l = ls.install(L.initArg({}), { time: T0, cycles: 10n ** 16n });
      if (l.trap !== undefined) return { node: null, findings: [{ cat: 'init', msg: l.trap }], resp: {} };
      const x = w.start(l.state, {});
      const d = ds.install(Cd.encode([{ record: { ledger_id: 'principal' } }], [{ ledger_id: ls.self }]), { time: T0, cycles: OWN[i] });
      if (d.trap !== undefined) return { node: null, findings: [{ cat: 'depositor', msg: 'installation: ' + d.trap }], resp: {} };
      ds.keep(d.state);
      return { node: { w: x.node, d: d.state, open: [], rich: i === 2 }, findings: x.findings, resp: { ok: null } };
    },
    alphabet(node) {
      const out = [];
      if (node.open.length < 3) {
        const call = (by, cycles, to, memo = null) => op({ call: { cycles, to, memo }, by });
        if (node.rich) out.push(call(C, 2n * F, A0), call(C, U64 - 1n, A0), call(A, U64, A1, 'fd'.repeat(32)), call(C, U64 + F, acc(A, ZERO), '00'), call(B, 1n << 72n, B0), call(C, 1n << 71n, acc(ls.self)));
        else out.push(call(C, 2n * F, A0), call(C, 3n * F, A1, 'aa'.repeat(32)), call(A, F + 1n, B0), call(C, F, A0), call(B, 2n * F, A0, '00'.repeat(33)));
        if (node.open.length === 0) out.push(call(C, 0n, A0), call(C, 3n * F + 1n, B0, ''), call(C, 1n << 70n, A0), call(C, (1n << 128n) - 1n, A0), call(ANON, 2n * F, acc(DEPOSITOR)));
      }
      node.open.forEach((p, i) => { if (p.answer) out.push({ answer: i }); else out.push({ deliver: i }, { lost: i, code: 2 }); });
      return out;
    },
    step(node, o, Fd) {
      const bad = (cat, msg) => Fd.push({ cat, msg });
      if (o.call) {
        const x = ds.update(node.d, { method: 'deposit', caller: o.by, arg: Cd.encode(argT, [o.call]), cycles: 0n });
        if (o.call.cycles > node.d.cycles) {
          if (!x.response || !x.response.reject) bad('depositor', `deposits ${o.call.cycles} with ${node.d.cycles} cycles`);
          if (x.state.cycles !== node.d.cycles) bad('depositor', 'cycles left with a failed deposit');
          return { node, resp: { trap: '' } };
        }
        if (x.response) { bad('depositor', `answered ${show(x.response)} before the ledger did`); return { node, resp: { trap: 'early' } }; }
        const d = ds.keep(x.state);
        if (x.made.length !== 1) { bad('depositor', `${x.made.length} calls instead of one`); return { node, resp: { trap: 'calls' } }; }
        const m = x.made[0];
        if (m.callee !== ls.self || m.method !== 'deposit') bad('depositor', `called ${m.callee}.${m.method}`);
        if (m.cycles !== o.call.cycles) bad('depositor', `attached ${m.cycles} cycles instead of ${o.call.cycles}`);
        if (d.cycles !== node.d.cycles - o.call.cycles) bad('depositor', `the depositor has ${d.cycles} cycles instead of ${node.d.cycles - o.call.cycles}`);
        const a = Cd.decode(m.arg)[0];
        const want = { to: o.call.to, memo: o.call.memo };
        if (key(a.to) !== key(want.to) || (a.memo ?? null) !== want.memo) bad('depositor', `passed on ${show(a)} instead of ${show(want)}`);
        return { node: { ...node, d, open: node.open.concat([{ id: m.id, cycles: m.cycles, to: a.to, memo: a.memo ?? null, answer: null }]) }, resp: { pending: true } };
      }
      const i = o.deliver ?? o.lost ?? o.answer, p = node.open[i];
      if (!p) return { node: null, resp: {} };
      const put = answer => node.open.map((q, j) => (j === i ? { ...q, answer } : q));
      if (o.lost !== undefined) { if (p.answer) return { node: null, resp: {} }; return { node: { ...node, open: put({ reject: o.code, msg: 'lost', back: p.cycles }) }, resp: { ok: null } }; }
      if (o.deliver !== undefined) {
        if (p.answer) return { node: null, resp: {} };
        const r = w.step(node.w, { m: 'deposit', by: DEPOSITOR, cyc: p.cycles, a: { to: p.to, memo: p.memo } });
        const answer = r.resp.ok !== undefined ? { ok: r.resp.ok, back: 0n } : { reject: 5, msg: 'ledger trapped', back: p.cycles };
        return { node: { ...node, w: r.node, open: put(answer) }, resp: r.resp, findings: r.findings };
      }
      if (!p.answer) return { node: null, resp: {} };
      const an = p.answer;
      const x = ds.deliver(node.d, p.id, an.ok ? { reply: Cd.encode(resT, [an.ok]), refund: 0n } : { reject: an.reject, msg: an.msg, refund: an.back });
      const d = ds.keep(x.state);
      if (d.cycles !== node.d.cycles + an.back) bad('depositor', `the depositor has ${d.cycles} cycles instead of ${node.d.cycles + an.back}`);
      if (x.made.length) bad('depositor', 'another call after the ledger\'s answer');
      let resp;
      if (!x.response) { bad('depositor', 'no answer after the ledger\'s'); resp = { trap: 'none' }; }
      else if (x.response.reject) { resp = { trap: '' }; if (an.ok) bad('depositor', `a deposit the ledger accepted was answered with ${show(x.response)}`); }
      else {
        resp = { ok: Cd.decode(x.response.reply)[0] };
        if (!an.ok) bad('depositor', `a deposit the ledger refused was answered with ${show(resp.ok)}`);
        else if (!same({ b: resp.ok.balance, i: resp.ok.block_index }, { b: an.ok.balance, i: an.ok.block_index })) bad('depositor', `answered ${show(resp.ok)}; the ledger said ${show(an.ok)}`);
      }
      return { node: { ...node, d, open: node.open.filter((_, j) => j !== i) }, resp };
    },
    ident: n => [w.key(n.w), n.d.cycles, n.open],
  });
};

// ---- ledger -> minting canister --------------------------------------------------------
const T = 1000n * F; // the least the minting canister takes
const ERR = { variant: { Refunded: { record: { refund_amount: 'nat', create_error: 'text' } }, RefundFailed: { record: { create_error: 'text', refund_error: 'text' } } } };
exports.minting = env => {
  const ls = new Sim(env.modules.ledger), ms = new Sim(env.modules.cmc, W.CMC);
  const w = new World(ls, { accounts: [A0, A1, B0], pairs: [[A0, B0]] });
  const settings = { controllers: [C], compute_allocation: 7n, memory_allocation: null, freezing_threshold: null, reserved_cycles_limit: null, wasm_memory_limit: null, wasm_memory_threshold: null, log_visibility: null, environment_variables: null };
  const fails = [{ Refunded: { refund_amount: T - 5n, create_error: 'nope' } }, { Refunded: { refund_amount: 0n, create_error: 'nope' } }, { RefundFailed: { create_error: 'nope', refund_error: 'gone' } }];
  const e0 = Cd.encode([], []), U64 = 1n << 64n;
  const vast = [{ Refunded: { refund_amount: U64 - 5n, create_error: 'nope' } }, { RefundFailed: { create_error: '', refund_error: '' } }];
  return base(env, 'minting', {
    sims: [ls, ms],
    note: 'create_canister and create_canister_from carried out by the repository\'s minting canister: amounts below, at and above its minimum and around 2^64, failures it was told to make, the management canister accepting or the identifier being taken, two creations open at once, every delivery order; the refund announced is the refund returned and the ledger stays solvent',
    depth: { quick: 5, thorough: 6 }, starts: 3,
    init(i) {
      const l = ls.install(L.initArg({}), { time: T0, cycles: 10n ** 16n });
      if (l.trap !== undefined) return { node: null, findings: [{ cat: 'init', msg: l.trap }], resp: {} };
      let r = w.start(l.state, {});
      const fs = r.findings.slice();
      for (const o of i === 2 ? [dep(A0, 5n * U64), dep(A1, 3n * T), appr(A0, B0, 3n * U64)] : [dep(A0, 5n * T), dep(A1, 3n * T), appr(A0, B0, i ? 1200n * F : 4n * T)]) { r = w.step(r.node, o); fs.push(...r.findings); }
      const m = ms.install(e0, { time: T0, cycles: 10n ** 15n });
      if (m.trap !== undefined) return { node: null, findings: [{ cat: 'minting', msg: 'installation: ' + m.trap }], resp: {} };
      ms.keep(m.state);
      return { node: { w: r.node, m: m.state, at: [], fail: null, last: null, vast: i === 2 }, findings: fs, resp: { ok: null } };
    },
    alphabet(node) {
      const out = [];
      if (node.at.length < 2) {
        const call = x => op({ call: x });
        if (node.vast) out.push(call(cc(A0, U64 - 1n)), call(cc(A0, U64 + 7n)), call(ccf(B0, A0, 2n * U64)));
        else out.push(call(cc(A0, T - 1n)), call(cc(A0, T)), call(cc(A1, T + 7n, { creation_args: { settings, subnet_selection: { Filter: { subnet_type: 'fast' } } } })), call(ccf(B0, A0, T)));
      }
      if (!node.fail) for (const e of node.vast ? vast : fails) out.push(op({ fail: e }));
      node.at.forEach((p, i) => {
        if (p.phase === 'sent') out.push({ mint: i });
        else if (p.phase === 'made') out.push({ made: i, ok: CANISTER2 }, { made: i, taken: true }, { made: i, refused: true });
        else out.push({ back: i });
      });
      return out;
    },
    step(node, o, Fd) {
      const bad = msg => Fd.push({ cat: 'minting', msg });
      if (o.call) {
        const r = w.step(node.w, o.call);
        const pend = r.node.g.pending;
        if (!r.resp.pending || pend.length === node.w.g.pending.length) return { node: r.node === node.w ? node : { ...node, w: r.node }, resp: r.resp, findings: r.findings };
        const id = pend[pend.length - 1].call;
        const k = r.node.s.calls.find(x => x.id === id);
        return { node: { ...node, w: r.node, at: node.at.concat([{ id, arg: k.arg, cycles: k.cycles, phase: 'sent' }]) }, resp: r.resp, findings: r.findings };
      }
      if (o.fail) {
        const x = ms.update(node.m, { method: 'fail_next_create_canister_with', caller: ANON, arg: Cd.encode([ERR], [o.fail]) });
        if (!x.response || x.response.reject) { bad(`fail_next_create_canister_with: ${show(x.response)}`); return { node, resp: { trap: '' } }; }
        return { node: { ...node, m: ms.keep(x.state), fail: o.fail }, resp: { ok: null } };
      }
      const i = o.mint ?? o.made ?? o.back, p = node.at[i];
      if (!p) return { node: null, resp: {} };
      const put = q => node.at.map((y, j) => (j === i ? { ...y, ...q } : y));
      const reply = b => { const v = Cd.decode(b)[0]; return v; };
      if (o.mint !== undefined) {
        if (p.phase !== 'sent') return { node: null, resp: {} };
        const x = ms.update(node.m, { method: 'create_canister', caller: ls.self, arg: p.arg, cycles: p.cycles });
        const m = ms.keep(x.state);
        const small = p.cycles < T;
        let n = { ...node, m };
        if (!small) { n.last = p.arg; n.fail = null; lastArgs(m, p.arg, bad); }
        if (x.response && x.response.reject) { bad(`rejected a call with ${p.cycles} cycles: ${x.response.msg}`); n.at = put({ phase: 'back', out: { reject: 5, msg: 'trapped' } }); return { node: n, resp: { trap: '' } }; }
        if (x.response) {
          const v = reply(x.response.reply);
          const want = small ? { Err: { Refunded: { refund_amount: p.cycles } } } : node.fail ? { Err: node.fail } : null;
          const kept = p.cycles - x.refund;
          if (m.cycles - node.m.cycles !== kept) bad(`${kept} cycles were taken, the balance rose by ${m.cycles - node.m.cycles}`);
          if (!want) { bad(`answered ${show(v)} without creating a canister`); }
          else if (small) { if (!v.Err || !v.Err.Refunded || v.Err.Refunded.refund_amount !== p.cycles) bad(`answered ${show(v)} to ${p.cycles} cycles`); }
          else if (!same(tidy(v), tidy(want))) bad(`answered ${show(v)} instead of ${show(want)}`);
          let out;
          if (v.Err && v.Err.Refunded) { if (v.Err.Refunded.refund_amount !== x.refund) bad(`announced a refund of ${v.Err.Refunded.refund_amount} and returned ${x.refund}`); out = { create: { refunded: x.refund } }; }
          else if (v.Err) { if (x.refund !== 0n) bad(`announced a lost refund and returned ${x.refund}`); out = { create: { refundFailed: true } }; }
          else out = okc(v.Ok);
          n.at = put({ phase: 'back', out, ann: v });
          return { node: n, resp: { ok: null } };
        }
        if (small || node.fail) bad(`tries to create a canister with ${p.cycles} cycles although it should fail`);
        creation(x.made, p, node.m.cycles, m.cycles, bad);
        n.at = put({ phase: 'made', call: x.made.length ? x.made[0].id : null });
        return { node: n, resp: { pending: true } };
      }
      if (o.made !== undefined) {
        if (p.phase !== 'made') return { node: null, resp: {} };
        const x = ms.deliver(node.m, p.call, o.ok ? { reply: Cd.encode([{ record: { canister_id: 'principal' } }], [{ canister_id: o.ok }]), refund: 0n } : { reject: 5, msg: o.taken ? 'canister id already exists' : 'not enough cycles to create a canister' });
        const m = ms.keep(x.state);
        if (o.ok) {
          const v = x.response && x.response.reply ? reply(x.response.reply) : null;
          if (!v || v.Ok !== o.ok) bad(`answered ${show(x.response)} after canister ${o.ok} was created`);
          if (x.refund !== 0n) bad(`returned ${x.refund} cycles after a creation`);
          return { node: { ...node, m, at: put({ phase: 'back', out: okc(o.ok) }) }, resp: { ok: null } };
        }
        if (o.refused) { // it has no way to answer that; whatever it does, its cycles and the ledger's stay in step
          if (!x.response) { bad('no answer after the management canister refused'); return { node, resp: { trap: 'none' } }; }
          if (m.cycles !== node.m.cycles + p.cycles - x.refund) bad(`the balance moved from ${node.m.cycles} to ${m.cycles}`);
          const v = x.response.reply ? reply(x.response.reply) : null;
          if (v && v.Ok !== undefined) bad(`answered ${show(v)} although no canister was created`);
          const out = v === null ? { reject: 5, msg: x.response.msg, back: x.refund } : v.Err.Refunded ? { create: { refunded: v.Err.Refunded.refund_amount } } : { create: { refundFailed: true } };
          if (v && v.Err.Refunded && v.Err.Refunded.refund_amount !== x.refund) bad(`announced a refund of ${v.Err.Refunded.refund_amount} and returned ${x.refund}`);
          return { node: { ...node, m, at: put({ phase: 'back', out }) }, resp: { ok: null } };
        }
        if (x.response) bad('gave up although the identifier was only taken');
        creation(x.made, p, node.m.cycles, m.cycles, bad);
        return { node: { ...node, m, at: put({ call: x.made.length ? x.made[0].id : null }) }, resp: { pending: true } };
      }
      if (p.phase !== 'back') return { node: null, resp: {} };
      const j = node.w.g.pending.findIndex(y => y.call === p.id);
      const r = w.step(node.w, { settle: j, out: p.out });
      return { node: { ...node, w: r.node, at: node.at.filter((_, k) => k !== i) }, resp: r.resp, findings: r.findings };
    },
    ident: n => [w.key(n.w), n.m.cycles, n.fail, n.last && n.last.toString('hex'), n.at.map(p => ({ ...p, arg: null }))],
  });
  function lastArgs(m, arg, bad) {
    const q = ms.query(m, 'last_create_canister_args', e0);
    if (q.reject) { bad('last_create_canister_args: ' + q.msg); return; }
    if (!same(tidy(Cd.decode(q.reply)[0]), tidy(Cd.decode(arg)[0]))) bad(`last_create_canister_args is ${show(Cd.decode(q.reply)[0])}; asked for ${show(Cd.decode(arg)[0])}`);
  }
  function creation(made, p, before, after, bad) {
    if (made.length !== 1) { bad(`${made.length} calls to create one canister`); return; }
    const k = made[0], a = Cd.decode(k.arg)[0], want = Cd.decode(p.arg)[0];
    if (k.callee !== '' || k.method !== 'create_canister') bad(`called ${k.callee}.${k.method}`);
    if (k.cycles !== p.cycles) bad(`${k.cycles} cycles passed on instead of ${p.cycles}`);
    if (after - before + k.cycles - p.cycles !== 0n) bad(`the balance moved from ${before} to ${after}`);
    if (!same(tidy(a.settings), tidy(want.settings))) bad(`settings ${show(a.settings)} instead of ${show(want.settings)}`);
  }
  function tidy(v) { return JSON.parse(JSON.stringify(v, (k, x) => (typeof x === 'bigint' ? String(x) : x && typeof x === 'object' && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).sort()) : x))); }
};
