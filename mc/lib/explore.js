'use strict';
// Bounded exhaustive search over operation sequences. Every state is a real
// state of the canister under test; every transition runs real code. The work
// is split over threads by (start, first operation); a shared table of visited
// states cuts what another path has already explored at least as deep.
const { Worker, isMainThread, parentPort, workerData } = require('worker_threads');
const os = require('os');
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');

const stringify = x => JSON.stringify(x, (k, v) => (typeof v === 'bigint' ? { $n: v.toString() } : Buffer.isBuffer(v) ? { $b: v.toString('hex') } : v && v.type === 'Buffer' && Array.isArray(v.data) ? { $b: Buffer.from(v.data).toString('hex') } : v));
const parse = s => JSON.parse(s, (k, v) => (v && typeof v === 'object' && typeof v.$n === 'string' ? BigInt(v.$n) : v && typeof v === 'object' && typeof v.$b === 'string' ? Buffer.from(v.$b, 'hex') : v));

// ---- visited table --------------------------------------------------------------
const SLOTS = 1 << 22;
class Table {
  constructor(buf) { this.t = new Int32Array(buf); this.mask = SLOTS - 1; }
  static create() { return new SharedArrayBuffer(SLOTS * 12); }
  // true: seen with at least this depth left
  seen(hi, lo, left) {
    hi = (hi | 1) | 0; lo |= 0;
    let i = ((hi ^ Math.imul(lo, 0x9e3779b1)) >>> 0) & this.mask;
    for (let n = 0; n < 64; n++, i = (i + 1) & this.mask) {
      const at = i * 3;
      const h = Atomics.compareExchange(this.t, at, 0, hi);
      if (h === 0) { Atomics.store(this.t, at + 1, lo); Atomics.store(this.t, at + 2, left + 1); return false; }
      if (h === hi && Atomics.load(this.t, at + 1) === lo) {
        if (Atomics.load(this.t, at + 2) >= left + 1) return true;
        Atomics.store(this.t, at + 2, left + 1);
        return false;
      }
    }
    return false; // full neighbourhood: explore again
  }
}

function loadSuite(ref, env) {
  const s = require(ref.file)[ref.name](env);
  s.id = ref.name;
  if (env.tier === 'quick') s.merge = false; // shallow enough to explore every history
  return s;
}

// A response, block or certificate the oracle cannot make sense of is a finding
// of its own kind, which counts against every property that meets it.
function stepOf(s, node, op, last) {
  beat();
  try { return s.step(node, op, last); } catch (e) { return { node, findings: [{ cat: 'malformed', msg: e.message, where: e.stack }], resp: { trap: e.message }, changed: false }; }
}
// While a step runs, a slot shared with the watching thread says since when,
// and by which alphabet positions the step is reached (-1: not known).
let slot = null, suiteNo = 0, startNo = 0, route = [];
function beat() {
  if (!slot) return;
  slot[1] = suiteNo; slot[2] = startNo; slot[3] = Math.min(route.length, 12);
  for (let i = 0; i < slot[3]; i++) slot[4 + i] = route[i];
  Atomics.store(slot, 0, Math.floor(Date.now() / 1000) & 0x3fffffff);
}
function rest() { if (slot) Atomics.store(slot, 0, 0); }
const SLOT = 16;

function initOf(s, i) {
  beat();
  try { return s.init(i); } catch (e) { return { node: null, findings: [{ cat: 'malformed', msg: e.message, where: e.stack }], resp: { trap: e.message } }; }
}

// ---- one thread -----------------------------------------------------------------
class Searcher {
  constructor(env, table, opts) {
    this.env = env; this.table = table; this.opts = opts;
    this.suites = new Map();
    this.stats = {};
    this.found = [];
    this.perCat = new Map();
  }
  get(ref) {
    const k = ref.file + '#' + ref.name;
    let s = this.suites.get(k);
    if (!s) { s = loadSuite(ref, this.env); s.nodes = new Map(); this.suites.set(k, s); }
    return s;
  }
  stat(name) { return this.stats[name] || (this.stats[name] = { states: 0, transitions: 0, merged: 0, traces: [], outcomes: {}, maxDepth: 0 }); }
  node(s, i, report) {
    let n = s.nodes.get(i);
    if (!n) {
      const r = initOf(s, i);
      if (report) this.report(s, i, [], r.findings);
      n = r.node;
      // only one start is kept alive per suite and thread
      if (s.nodes.size > 3) s.nodes.delete(s.nodes.keys().next().value);
      s.nodes.set(i, n);
    }
    return n;
  }
  wanted(f) { if (this.opts.ops && !(f.op === undefined || this.opts.ops.includes(f.op))) return false; return this.opts.cats === null || f.cat === 'malformed' || this.opts.cats.some(c => f.cat === c || f.cat.startsWith(c + ':')); }
  report(s, start, pathOps, findings) {
    let hit = false;
    for (const f of findings) {
      if (!this.wanted(f)) continue;
      hit = true;
      const n = (this.perCat.get(f.cat) || 0) + 1;
      this.perCat.set(f.cat, n);
      if (n <= 3) this.found.push({ suite: s.id, start, ops: stringify(pathOps), cat: f.cat, op: f.op, msg: f.msg });
    }
    return hit;
  }
  // task: {ref, start, first: index of the first op or -1 for the start itself}
  run(task) {
    const s = this.get(task.ref);
    suiteNo = task.no; startNo = task.start; route = [];
    const st = this.stat(s.id);
    const node = this.node(s, task.start, task.first < 0);
    if (!node) return;
    if (task.first < 0) { st.states++; return; }
    const depth = s.depth;
    const ops = s.alphabet(node, 0);
    this.path = [];
    if (task.second === undefined) { this.edge(s, st, task.start, node, ops[task.first], depth, task.first); return; }
    // deep searches are split at the second operation
    const k = task.start + '/' + task.first;
    let r = s.split && s.split.k === k ? s.split.r : null;
    if (!r) { route = [task.first]; r = stepOf(s, node, ops[task.first], false); s.split = { k, r }; }
    this.path.push(ops[task.first]);
    route = [task.first];
    if (task.second < 0) {
      st.transitions++;
      if (r.findings.length) this.report(s, task.start, this.path, r.findings);
      if (r.changed && r.node !== node) { st.states++; if (s.merge !== false) { const [a, b] = s.key(r.node); this.table.seen(a, b, depth - 1); } }
    } else if (!r.findings.some(f => this.wanted(f))) this.edge(s, st, task.start, r.node, s.alphabet(r.node, 1)[task.second], depth - 1, task.second);
    this.path = [];
  }
  edge(s, st, start, node, op, left, at) {
    if (Date.now() > this.opts.deadline) { st.capped = true; return; }
    route.push(at);
    try { this.edge1(s, st, start, node, op, left); } finally { route.pop(); }
  }
  edge1(s, st, start, node, op, left) {
    const r = stepOf(s, node, op, left <= 1);
    if (r.node === null || r.node === undefined) return; // not applicable here
    st.transitions++;
    this.path.push(op);
    if (this.path.length > st.maxDepth) st.maxDepth = this.path.length;
    if (r.findings.length) { this.report(s, start, this.path, r.findings); if (r.findings.some(f => this.wanted(f))) { this.path.pop(); return; } }
    const fresh = r.changed && r.node !== node;
    if (left > 1 && fresh) {
      let go = true;
      if (s.merge !== false) {
        const [a, b] = s.key(r.node);
        if (this.table.seen(a, b, left - 1)) { st.merged++; go = false; } else st.states++;
      } else st.states++;
      if (go) {
        const d = this.path.length;
        s.alphabet(r.node, d).forEach((o, i) => this.edge(s, st, start, r.node, o, left - 1, i));
      }
    } else if (fresh) { st.states++; this.sample(s, st, start, r); }
    else if (left <= 1) this.sample(s, st, start, r);
    this.path.pop();
  }
  sample(s, st, start, r) {
    st.leaves = (st.leaves || 0) + 1;
    // keep leaves 1, 2, 4, 8, ... and every 5000th: replayed from scratch later
    const n = st.leaves;
    if (((n & (n - 1)) === 0 || n % 5000 === 0) && st.traces.length < 24) st.traces.push({ suite: s.id, start, ops: stringify(this.path), digest: s.digest(r) });
  }
  done() {
    for (const s of this.suites.values()) {
      const st = this.stat(s.id);
      const o = s.outcomes ? s.outcomes() : null;
      if (o) for (const [k, v] of o) st.outcomes[k] = (st.outcomes[k] || 0) + v;
      st.sim = s.counts ? s.counts() : {};
    }
    return { stats: this.stats, found: this.found, perCat: [...this.perCat] };
  }
}

// straight-line execution of a history on a fresh instance
function execute(s, start, ops, onStep) {
  let r = initOf(s, start);
  const all = r.findings.map(f => ({ ...f, at: -1 }));
  let node = r.node;
  if (onStep) onStep(-1, null, r);
  for (let i = 0; i < ops.length && node; i++) {
    r = stepOf(s, node, ops[i]);
    if (onStep) onStep(i, ops[i], r);
    for (const f of r.findings) all.push({ ...f, at: i });
    if (r.node === null || r.node === undefined) return { skipped: i, findings: all, last: r };
    node = r.node;
  }
  return { findings: all, last: r, node };
}

function minimise(s, v) {
  let ops = parse(v.ops);
  const fails = o => { try { return execute(s, v.start, o).findings.some(f => f.cat === v.cat); } catch (e) { return false; } };
  if (!fails(ops)) return { ...v, reproduced: false };
  for (let again = true; again;) {
    again = false;
    for (let i = ops.length - 1; i >= 0; i--) {
      const o = ops.slice(0, i).concat(ops.slice(i + 1));
      if (fails(o)) { ops = o; again = true; }
    }
  }
  const f = execute(s, v.start, ops).findings.find(x => x.cat === v.cat);
  return { ...v, ops: stringify(ops), msg: f.msg, reproduced: true };
}

// explore() on a thread of its own, watched: a message that has not ended after
// opts.hang seconds is a violation of every property that meets it.
function watched(refs, env, opts) {
  const slots = new Int32Array(new SharedArrayBuffer(4 * SLOT * (2 + os.availableParallelism())));
  return new Promise((res, rej) => {
    const w = new Worker(__filename, { workerData: { main: true, refs, env, opts: { ...opts, slots } }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
    const end = f => x => { clearInterval(timer); f(x); };
    const timer = setInterval(() => {
      const now = Math.floor(Date.now() / 1000) & 0x3fffffff;
      for (let i = 0; i < slots.length; i += SLOT) {
        const t = Atomics.load(slots, i);
        if (!t || now - t < opts.hang) continue;
        w.terminate();
        end(res)({ hang: { suite: refs[slots[i + 1]].name, start: slots[i + 2], route: [...slots.subarray(i + 4, i + 4 + slots[i + 3])] } });
        return;
      }
    }, 1000);
    w.on('message', end(res));
    w.on('error', end(rej));
  });
}

async function explore(refs, env, opts) {
  const t0 = Date.now();
  const table = Table.create();
  const tasks = [];
  const main = new Searcher(env, new Table(table), opts);
  const meta = {};
  for (const ref of refs) {
    const s = main.get(ref);
    meta[s.id] = { depth: s.depth, starts: s.starts, merge: s.merge !== false, note: s.note };
    const list = [], no = refs.indexOf(ref);
    suiteNo = no;
    for (let i = 0; i < s.starts; i++) {
      list.push({ ref, no, start: i, first: -1 });
      startNo = i; route = [];
      const n = s.firstOps ? s.firstOps(i) : null;
      if (n !== null) for (let k = 0; k < n; k++) list.push({ ref, no, start: i, first: k });
      else {
        const node = main.node(s, i, false);
        if (node) {
          const al = s.alphabet(node, 0);
          for (let k = 0; k < al.length; k++) {
            if (s.depth < 5) { list.push({ ref, no, start: i, first: k }); continue; }
            route = [k];
            const r = stepOf(s, node, al[k], false);
            route = [];
            if (r.node === null || r.node === undefined) continue;
            const m = r.changed && r.node !== node ? s.alphabet(r.node, 1).length : 0;
            for (let j = -1; j < m; j++) list.push({ ref, no, start: i, first: k, second: j });
          }
        }
      }
    }
    tasks.push(...list);
  }
  rest();
  for (const s of main.suites.values()) if (s.reset) s.reset();
  // one subtree at a time (so that no thread is left with a long tail), a part of every suite in
  // turn (so that none is left out if time runs out), and the shallow ones twice as fast
  const depthOf = t => main.get(t.ref).depth;
  const share = new Map(), done = new Map();
  for (const t of tasks) share.set(t.ref, (share.get(t.ref) || 0) + 1);
  const batches = [];
  for (let i = 0; i < tasks.length;) {
    const n = depthOf(tasks[i]) === 1 ? 32 : 1;
    let j = i;
    while (j < tasks.length && j - i < n && tasks[j].ref === tasks[i].ref && tasks[j].start === tasks[i].start) j++;
    const { ref } = tasks[i];
    const b = tasks.slice(i, j);
    b.when = (done.get(ref) || 0) / share.get(ref) / (depthOf(tasks[i]) > 2 ? 1 : 2);
    done.set(ref, (done.get(ref) || 0) + j - i);
    batches.push(b);
    i = j;
  }
  batches.sort((a, b) => a.when - b.when);
  const threads = Math.max(1, Math.min(opts.threads || os.availableParallelism(), tasks.length));
  let next = 0;
  const total = { stats: {}, found: [], perCat: new Map() };
  await Promise.all(Array.from({ length: threads }, (_, k) => new Promise((res, rej) => {
    const w = new Worker(__filename, { workerData: { env, table: table, opts, slot: opts.slots ? opts.slots.subarray(SLOT * (k + 1), SLOT * (k + 2)) : null }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
    const give = () => {
      if (opts.stopEarly && total.stop) { w.postMessage({ end: true }); return; }
      if (next >= batches.length) { w.postMessage({ end: true }); return; }
      w.postMessage({ tasks: batches[next++] });
    };
    w.on('message', m => {
      if (m.idle) { if (m.hits >= (opts.stopAt || 100)) total.stop = true; give(); return; }
      if (m.result) {
        for (const [k, st] of Object.entries(m.result.stats)) {
          const d = total.stats[k] || (total.stats[k] = { states: 0, transitions: 0, merged: 0, leaves: 0, traces: [], outcomes: {}, maxDepth: 0, capped: false, messages: 0, queries: 0 });
          for (const f of ['states', 'transitions', 'merged', 'leaves']) d[f] += st[f] || 0;
          for (const f of ['messages', 'queries']) d[f] += (st.sim && st.sim[f]) || 0;
          d.traces.push(...st.traces);
          d.maxDepth = Math.max(d.maxDepth, st.maxDepth);
          d.capped = d.capped || !!st.capped;
          for (const [o, n] of Object.entries(st.outcomes)) d.outcomes[o] = (d.outcomes[o] || 0) + n;
        }
        total.found.push(...m.result.found);
        for (const [c, n] of m.result.perCat) total.perCat.set(c, (total.perCat.get(c) || 0) + n);
        w.terminate().then(() => res());
      }
    });
    w.on('error', rej);
  })));
  // replay a sample of the explored histories from installation on
  let validated = 0;
  const diverged = [];
  const vEnd = Date.now() + (opts.validateMs || 8000);
  for (const ref of refs) {
    const s = main.get(ref);
    suiteNo = refs.indexOf(ref); route = [-1];
    const st = total.stats[s.id];
    if (!st) continue;
    const tr = st.traces.slice();
    for (const t of tr) {
      if (Date.now() > vEnd) break;
      const x = execute(s, t.start, parse(t.ops));
      if (s.digest(x.last) === t.digest) validated++;
      else diverged.push({ suite: s.id, start: t.start, ops: t.ops });
    }
  }
  // minimise the violations
  const seen = new Set(), violations = [];
  total.found.sort((a, b) => a.ops.length - b.ops.length);
  for (const v of opts.noMin ? [] : total.found) {
    if (seen.has(v.cat) || violations.length >= 6) continue;
    const m = minimise(main.get(refs.find(r => r.name === v.suite)), v);
    if (!m.reproduced && total.found.some(x => x !== v && x.cat === v.cat && !x.tried)) { v.tried = true; continue; }
    seen.add(v.cat);
    violations.push(m);
  }
  return { stats: total.stats, meta, violations, found: total.found, counts: [...total.perCat], validated, diverged, wall: (Date.now() - t0) / 1000, threads, tasks: tasks.length };
}

if (!isMainThread && workerData && workerData.main) {
  slot = workerData.opts.slots.subarray(0, SLOT);
  explore(workerData.refs, workerData.env, workerData.opts).then(r => { rest(); parentPort.postMessage(r); });
}
if (!isMainThread && workerData && workerData.table) {
  const { env, table, opts } = workerData;
  slot = workerData.slot;
  const s = new Searcher(env, new Table(table), opts);
  parentPort.on('message', m => {
    if (m.end) { parentPort.postMessage({ result: s.done() }); return; }
    for (const t of m.tasks) s.run(t);
    rest();
    parentPort.postMessage({ idle: true, hits: [...s.perCat.values()].reduce((a, b) => a + b, 0) });
  });
  parentPort.postMessage({ idle: true, hits: 0 });
}

module.exports = { explore, watched, execute, stringify, parse, loadSuite };
