'use strict';
// Executes a compiled canister the way the Internet Computer does: one message
// at a time, state committed at the end of a message and rolled back when it
// traps, outgoing calls left for the caller of this class to answer in any
// order and with any outcome. States are immutable values, so a search can go
// back to any of them.
const PAGE = 4096;
const WPAGE = 65536;
const NOPAGE = new Uint8Array(PAGE);

function hashPage(u8) { // two independent 32-bit lanes
  const w = new Uint32Array(u8.buffer, u8.byteOffset, PAGE / 4);
  let a = 0x9e3779b9, b = 0x85ebca6b;
  for (let i = 0; i < w.length; i++) {
    const x = w[i];
    if (x === 0) { continue; }
    const y = x ^ Math.imul(i + 1, 0x9e3779b1);
    a = Math.imul(a ^ y, 0x01000193); a ^= a >>> 15;
    b = Math.imul((b ^ Math.imul(y, 0xcc9e2d51)) + 0x7f4a7c15 | 0, 0x1b873593); b ^= b >>> 13;
  }
  return [a >>> 0, b >>> 0];
}
const pageHash = p => p.h || (p.h = hashPage(p.d));

class Trap extends Error {}

class Sim {
  // self: principal (hex) of the simulated canister
  constructor(module, self = '000000000000005e0101') {
    this.module = module;
    this.self = self;
    this.live = null; // state the instance holds
    this.count = { messages: 0, queries: 0, traps: 0 };
    this.io = 0; // accesses to stable memory
    this.faults = {};
    this.fresh();
  }

  fresh() {
    const need = WebAssembly.Module.imports(this.module);
    const env = this.imports();
    const ic0 = {};
    for (const { module, name, kind } of need) {
      if (module !== 'ic0' || kind !== 'function') throw new Error(`import ${module}.${name}`);
      ic0[name] = env[name] || (() => { throw new Trap(`ic0.${name} is not available`); });
    }
    this.inst = new WebAssembly.Instance(this.module, { ic0 });
    const e = this.inst.exports;
    this.mem = e.memory;
    this.sp = e.__stack_pointer;
    this.base = Number(this.sp.value);
    if (!(e.__data_end.value > this.base)) this.base = 0; // stack not first: keep everything
    this.sp0 = this.sp.value;
    this.table = e.__indirect_function_table;
    this.live = null;
  }

  // ---- stable memory -------------------------------------------------------
  ensureOwn() { if (!this.pagesOwned) { this.pages = new Map(this.pages); this.pagesOwned = true; this.own = new Set(); } }
  swrite(off, src) {
    this.io++;
    if (off + src.length > this.stableSize * WPAGE) throw new Trap('stable memory out of bounds');
    this.ensureOwn();
    let i = 0;
    while (i < src.length) {
      const no = Math.floor((off + i) / PAGE), at = (off + i) % PAGE, n = Math.min(PAGE - at, src.length - i);
      let p = this.pages.get(no);
      if (!this.own.has(no)) {
        const d = new Uint8Array(PAGE);
        if (p) d.set(p.d);
        p = { d, h: null };
        this.pages.set(no, p);
        this.own.add(no);
      }
      p.h = null;
      p.d.set(src.subarray(i, i + n), at);
      i += n;
    }
    this.swrote = true;
  }
  sread(off, dst) {
    this.io++;
    if (off + dst.length > this.stableSize * WPAGE) throw new Trap('stable memory out of bounds');
    let i = 0;
    while (i < dst.length) {
      const no = Math.floor((off + i) / PAGE), at = (off + i) % PAGE, n = Math.min(PAGE - at, dst.length - i);
      const p = this.pages.get(no);
      dst.set((p ? p.d : NOPAGE).subarray(at, at + n), i);
      i += n;
    }
  }

  // ---- system interface ----------------------------------------------------
  imports() {
    const self = this;
    const u8 = (p, n) => new Uint8Array(self.mem.buffer, Number(p) >>> 0, Number(n) >>> 0);
    const copy = (dst, off, n, src) => {
      off = Number(off) >>> 0; n = Number(n) >>> 0;
      if (off + n > src.length) throw new Trap('copy out of bounds');
      u8(dst, n).set(src.subarray(off, off + n));
    };
    const put128 = (dst, v) => {
      const dv = new DataView(self.mem.buffer);
      dv.setBigUint64(Number(dst) >>> 0, v & 0xffffffffffffffffn, true);
      dv.setBigUint64((Number(dst) >>> 0) + 8, v >> 64n, true);
    };
    const bytes = h => Buffer.from(h, 'hex');
    const u128 = (hi, lo) => (BigInt.asUintN(64, hi) << 64n) | BigInt.asUintN(64, lo);
    const accept = max => {
      const a = max < self.m.avail ? max : self.m.avail;
      self.m.avail -= a;
      self.cycles += a;
      return a;
    };
    const text = (p, n) => Buffer.from(u8(p, n)).toString();
    return {
      msg_arg_data_size: () => self.m.arg.length,
      msg_arg_data_copy: (d, o, n) => copy(d, o, n, self.m.arg),
      msg_caller_size: () => self.m.caller.length / 2,
      msg_caller_copy: (d, o, n) => copy(d, o, n, bytes(self.m.caller)),
      msg_reject_code: () => self.m.rejectCode,
      msg_reject_msg_size: () => Buffer.byteLength(self.m.rejectMsg),
      msg_reject_msg_copy: (d, o, n) => copy(d, o, n, Buffer.from(self.m.rejectMsg)),
      msg_deadline: () => 0n,
      msg_method_name_size: () => Buffer.byteLength(self.m.method),
      msg_method_name_copy: (d, o, n) => copy(d, o, n, Buffer.from(self.m.method)),
      msg_reply_data_append: (p, n) => { self.m.out.push(u8(p, n).slice()); },
      msg_reply: () => { if (self.m.response) throw new Trap('second response'); self.m.response = { reply: Buffer.concat(self.m.out) }; },
      msg_reject: (p, n) => { if (self.m.response) throw new Trap('second response'); self.m.response = { reject: 4, msg: text(p, n) }; },
      msg_cycles_available: () => self.m.avail,
      msg_cycles_available128: d => put128(d, self.m.avail),
      msg_cycles_refunded: () => self.m.refunded,
      msg_cycles_refunded128: d => put128(d, self.m.refunded),
      msg_cycles_accept: max => accept(BigInt.asUintN(64, max)),
      msg_cycles_accept128: (hi, lo, d) => put128(d, accept(u128(hi, lo))),
      cycles_burn128: (hi, lo, d) => { let a = u128(hi, lo); if (a > self.cycles) a = self.cycles; self.cycles -= a; self.burned += a; put128(d, a); },
      canister_self_size: () => self.self.length / 2,
      canister_self_copy: (d, o, n) => copy(d, o, n, bytes(self.self)),
      canister_cycle_balance: () => self.cycles,
      canister_cycle_balance128: d => put128(d, self.cycles),
      canister_liquid_cycle_balance128: d => put128(d, self.faults.liquid !== undefined ? self.faults.liquid : self.cycles),
      canister_status: () => 1,
      canister_version: () => 1n,
      subnet_self_size: () => 0,
      subnet_self_copy: () => {},
      root_key_size: () => 0,
      root_key_copy: () => {},
      certified_data_set: (p, n) => { self.cert = Buffer.from(u8(p, n)).toString('hex'); },
      data_certificate_present: () => (self.m.query && !self.faults.noCertificate ? 1 : 0),
      data_certificate_size: () => self.certificate().length,
      data_certificate_copy: (d, o, n) => copy(d, o, n, self.certificate()),
      time: () => self.now,
      global_timer_set: () => 0n,
      performance_counter: () => 0n,
      is_controller: () => 0,
      in_replicated_execution: () => (self.m.query ? 0 : 1),
      debug_print: (p, n) => { if (self.onPrint) self.onPrint(text(p, n)); },
      trap: (p, n) => { throw new Trap(text(p, n)); },
      env_var_count: () => 0,
      cost_call: (a, b, d) => put128(d, 0n),
      cost_create_canister: (a, b, d) => put128(d, 0n),
      call_new: (cp, cn, np, nn, rf, re, jf, je) => {
        self.dropCall();
        self.m.call = {
          callee: Buffer.from(u8(cp, cn)).toString('hex'), method: text(np, nn),
          rf, re, jf, je, cf: null, ce: null, cycles: 0n, arg: [], bounded: false,
        };
      },
      call_on_cleanup: (f, e) => { self.m.call.cf = f; self.m.call.ce = e; },
      call_with_best_effort_response: () => { self.m.call.bounded = true; },
      call_data_append: (p, n) => { self.m.call.arg.push(Buffer.from(u8(p, n))); },
      call_cycles_add: a => self.addCycles(BigInt.asUintN(64, a)),
      call_cycles_add128: (hi, lo) => self.addCycles(u128(hi, lo)),
      call_perform: () => {
        const c = self.m.call;
        if (!c) throw new Trap('call_perform without call_new');
        if (self.faults.perform) { self.dropCall(); return self.faults.perform; }
        self.m.call = null;
        self.m.calls.push(c);
        return 0;
      },
      stable_size: () => self.stableSize,
      stable_grow: n => { const o = self.stableSize; self.stableSize += n >>> 0; return o; },
      stable_write: (o, s, n) => self.swrite(o >>> 0, u8(s, n)),
      stable_read: (d, o, n) => self.sread(o >>> 0, u8(d, n)),
      stable64_size: () => BigInt(self.stableSize),
      stable64_grow: n => { const o = self.stableSize; self.stableSize += Number(n); return BigInt(o); },
      stable64_write: (o, s, n) => self.swrite(Number(o), u8(s, n)),
      stable64_read: (d, o, n) => self.sread(Number(o), u8(d, n)),
    };
  }
  certificate() { return Buffer.from('certificate of ' + this.cert); }
  addCycles(n) {
    if (n > this.cycles) throw new Trap('not enough cycles for the call');
    this.cycles -= n;
    this.m.call.cycles += n;
  }
  dropCall() { if (this.m.call) { this.cycles += this.m.call.cycles; this.m.call = null; } }

  // ---- states --------------------------------------------------------------
  load(s) {
    if (this.live === s && !(this.tainted && s.mem && !this.lax)) return; // lax: among the queries of one audit
    if (!s.mem) throw new Error('state was not kept');
    if (s.inst !== this.inst) {
      // after an upgrade another instance of the same module holds the state;
      // the code and the layout are the same
    }
    const have = this.mem.buffer.byteLength;
    if (have < s.memLen) this.mem.grow((s.memLen - have) / WPAGE);
    const all = new Uint8Array(this.mem.buffer);
    all.set(s.mem, this.base);
    if (all.length > s.memLen) all.fill(0, s.memLen);
    this.sp.value = this.sp0;
    this.live = s;
    this.tainted = false;
  }
  begin(s) {
    this.pages = s.pages; this.pagesOwned = false; this.own = null; this.swrote = false;
    this.stableSize = s.stableSize;
    this.cert = s.cert;
    this.cycles = s.cycles;
    this.burned = 0n;
    this.now = s.time;
  }
  // keeps the instance's memory in the state, so that the state can be loaded again
  keep(s) {
    if (s.mem || this.leaf) return s; // leaf: the search will not come back to this state
    if (this.live !== s) throw new Error('state was not kept');
    const m = new Uint8Array(this.mem.buffer);
    s.memLen = m.length;
    s.mem = m.slice(this.base);
    this.tainted = false;
    return s;
  }
  run(fn) { // -> null, or the trap's message
    try { fn(); return null; } catch (e) {
      if (!(e instanceof Trap) && !(e instanceof WebAssembly.RuntimeError)) throw e;
      this.live = null;
      this.sp.value = this.sp0;
      this.count.traps++;
      return e.message || 'trap';
    }
  }
  commit(s, extra) {
    const n = {
      mem: null, memLen: 0, pages: this.pages, stableSize: this.stableSize, cert: this.cert,
      cycles: this.cycles, time: s.time, calls: s.calls, ctxs: s.ctxs, nextId: s.nextId, ...extra,
    };
    this.live = n;
    this.tainted = false;
    return n;
  }
  newMsg(x) { return { arg: new Uint8Array(0), caller: '', method: '', avail: 0n, refunded: 0n, out: [], response: null, calls: [], call: null, rejectCode: 0, rejectMsg: '', query: false, ...x }; }

  install(arg, { time, cycles = 0n, caller = '0101' }) {
    this.fresh();
    const zero = { pages: new Map(), stableSize: 0, cert: null, cycles, time, calls: [], ctxs: [], nextId: 1 };
    this.begin(zero);
    this.m = this.newMsg({ arg, caller });
    this.count.messages++;
    const t = this.run(() => { const f = this.inst.exports.canister_init; if (f) f(); });
    if (t !== null) return { trap: t };
    return { state: this.commit(zero) };
  }
  // replaces the instance, keeping stable memory
  upgrade(s, arg, caller = '0101') {
    this.load(s);
    this.begin(s);
    this.m = this.newMsg({ arg, caller });
    const before = this.inst;
    const pre = before.exports.canister_pre_upgrade;
    if (pre) { const t = this.run(() => pre()); if (t !== null) return { trap: t, state: s }; }
    const spare = { inst: this.inst, mem: this.mem, sp: this.sp, base: this.base, sp0: this.sp0, table: this.table };
    this.fresh();
    this.count.messages++;
    const t = this.run(() => { const f = this.inst.exports.canister_post_upgrade; if (f) f(); });
    if (t !== null) { Object.assign(this, spare); this.live = null; return { trap: t, state: s }; }
    return { state: this.commit(s) };
  }

  // upgrades a state of another module (which has no pre_upgrade) to this one
  adopt(s, arg, caller = '0101') {
    this.fresh();
    this.begin(s);
    this.m = this.newMsg({ arg, caller });
    this.count.messages++;
    const t = this.run(() => { const f = this.inst.exports.canister_post_upgrade; if (f) f(); });
    if (t !== null) return { trap: t, state: s };
    return { state: this.commit(s) };
  }

  finish(s, ctx, extraCalls) {
    // s.ctxs/calls after a message of call context ctx
    this.dropCall();
    let nextId = s.nextId;
    const calls = s.calls.concat(this.m.calls.map(c => ({ ...c, arg: Buffer.concat(c.arg), id: nextId++, ctx: ctx.id })));
    return { calls, nextId };
  }

  // An ingress or inter-canister update call. Result: {state, response|null, ctx, refund, trap?}
  update(s, { method, caller, arg, cycles = 0n, tag = null }) {
    this.load(s);
    this.begin(s);
    this.m = this.newMsg({ arg, caller, method, avail: cycles });
    const f = this.inst.exports['canister_update ' + method];
    if (!f) return { state: s, response: { reject: 3, msg: 'no method ' + method }, refund: cycles, ctx: null };
    this.count.messages++;
    const t = this.run(() => f());
    if (t !== null) return { state: s, response: { reject: 5, msg: t }, trap: t, refund: cycles, ctx: null };
    const ctx = { id: s.nextId, caller, method, avail: this.m.avail, responded: !!this.m.response, tag };
    const { calls, nextId } = this.finish({ ...s, nextId: s.nextId + 1 }, ctx);
    const open = calls.some(c => c.ctx === ctx.id);
    let response = this.m.response;
    if (!response && !open) response = { reject: 5, msg: 'did not respond' };
    const refund = response ? this.m.avail : 0n;
    if (response) ctx.responded = true;
    const state = this.commit(s, { calls, nextId, ctxs: open ? s.ctxs.concat([ctx]) : s.ctxs });
    return { state, response, ctx: ctx.id, refund, made: calls.slice(s.calls.length) };
  }

  // A call with a bounded wait may be given up by the system at any time: its
  // fate is unknown and its cycles are gone. That is what a failure of one is.
  answer(call, o) { return call.bounded && o.reject ? { reject: 6, msg: o.msg, refund: 0n } : o; }

  // Answers outgoing call `id`: {reply, refund} or {reject, msg, refund?}. A
  // rejected call returns all its cycles.
  deliver(s, id, o) {
    const c = s.calls.find(x => x.id === id);
    if (!c) throw new Error('no call ' + id);
    const ctx = s.ctxs.find(x => x.id === c.ctx);
    o = this.answer(c, o);
    const refund = o.refund !== undefined ? o.refund : (o.reject ? c.cycles : 0n);
    const s1 = { ...s, cycles: s.cycles + refund, calls: s.calls.filter(x => x.id !== id) };
    this.load(s);
    this.begin(s1);
    const m = { caller: ctx.caller, method: ctx.method, avail: ctx.avail, refunded: refund };
    this.m = this.newMsg(o.reject ? { ...m, rejectCode: o.reject, rejectMsg: o.msg || '' } : { ...m, arg: o.reply });
    if (ctx.responded) this.m.response = { dummy: true };
    this.count.messages++;
    const t = this.run(() => (o.reject ? this.table.get(c.jf)(c.je) : this.table.get(c.rf)(c.re)));
    let state, response = null, trap = null;
    if (t === null) {
      const r = this.finish(s1, ctx);
      response = this.m.response && !this.m.response.dummy ? this.m.response : null;
      ctxClose.call(this, r.calls, r.nextId);
    } else {
      trap = t;
      this.load(s.mem ? s : this.failNoMem());
      this.begin(s1);
      this.m = this.newMsg(m);
      if (c.cf !== null) { const t2 = this.run(() => this.table.get(c.cf)(c.ce)); if (t2 !== null) { this.load(s); this.begin(s1); } }
      ctxClose.call(this, s1.calls, s1.nextId);
    }
    return { state, response, trap, refund: response ? this.ctxAvail : 0n, made: state.calls.slice(s1.calls.length) };

    function ctxClose(calls, nextId) {
      const open = calls.some(x => x.ctx === ctx.id);
      if (!response && !open && !ctx.responded) response = { reject: 5, msg: trap || 'did not respond' };
      const n = { ...ctx, avail: this.m.avail, responded: ctx.responded || !!response };
      this.ctxAvail = this.m.avail;
      const ctxs = s1.ctxs.filter(x => x.id !== ctx.id);
      if (open) ctxs.push(n);
      state = this.commit(s1, { calls, nextId, ctxs });
    }
  }
  failNoMem() { throw new Error('callback trapped on a state that was not kept'); }

  query(s, method, arg, caller = '04') {
    this.load(s);
    this.begin(s);
    this.m = this.newMsg({ arg, caller, method, query: true });
    const f = this.inst.exports['canister_query ' + method];
    if (!f) return { reject: 3, msg: 'no method ' + method };
    this.count.queries++;
    const t = this.run(() => f());
    if (t !== null) {
      if (!s.mem && !this.leaf) throw new Error(`query ${method} trapped on a state that was not kept: ${t}`);
      return { reject: 5, msg: t };
    }
    if (this.swrote) { if (s.mem || this.leaf) this.live = null; else throw new Error('a query wrote stable memory'); }
    this.tainted = true;
    return this.m.response || { reject: 5, msg: 'did not respond' };
  }
  at(s, time) { return s.time === time ? s : this.derive(s, { time }); }
  derive(s, x) {
    const n = { ...s, ...x };
    if (this.live === s) this.live = n;
    return n;
  }

  // Hash of the stable memory except the given memory-manager ids.
  stableKey(s, skip) {
    let a = 0, b = 0;
    const owner = skip && bucketOwners(s);
    for (const [no, p] of s.pages) {
      if (owner && no >= 16) {
        const bucket = Math.floor((no * PAGE - WPAGE) / owner.bucketBytes);
        if (skip.has(owner.map[bucket])) continue;
      }
      if (no === 0 && owner) continue;
      const [x, y] = pageHash(p);
      a = (a + Math.imul(x ^ Math.imul(no + 1, 0x9e3779b1), 0x85ebca6b)) >>> 0;
      b = (b + Math.imul(y ^ Math.imul(no + 7, 0xc2b2ae35), 0x27d4eb2f)) >>> 0;
    }
    return [a, b];
  }
}
function bucketOwners(s) {
  const p = s.pages.get(0);
  if (!p || Buffer.from(p.d.subarray(0, 3)).toString() !== 'MGR') return null;
  const dv = new DataView(p.d.buffer, p.d.byteOffset);
  const n = dv.getUint16(4, true), pages = dv.getUint16(6, true);
  const at = 3 + 1 + 2 + 2 + 32 + 255 * 8;
  if (at + n > PAGE) return null;
  return { map: Array.from(p.d.subarray(at, at + n)), bucketBytes: pages * WPAGE };
}
module.exports = { Sim };
