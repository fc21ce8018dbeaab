'use strict';
// node check.js <property> [quick|thorough]        runs one check
// node check.js --suites a,b [tier]                runs suites with every rule on (development)
// node check.js --replay FILE                      re-executes a recorded violation
const fs = require('fs');
const path = require('path');
const { execFileSync } = require('child_process');
const { watched, execute, stringify, parse } = require('./lib/explore.js');
const ROOT = path.dirname(__dirname);
const REPO = process.env.MC_REPO || '/repo';
const BUILD = process.env.MC_BUILD || path.join(ROOT, 'build');

// the module with its memory limited to 512 MB, so that runaway allocation traps
function bounded(b) {
  const leb = i => { let v = 0, k = 0; for (;; i++, k += 7) { v += (b[i] & 127) * 2 ** k; if (b[i] < 128) return [v, i + 1]; } };
  const enc = n => { const o = []; do { const x = n % 128; n = Math.floor(n / 128); o.push(n ? x | 128 : x); } while (n); return o; };
  for (let i = 8; i < b.length;) {
    const id = b[i], [n, at] = leb(i + 1);
    if (id === 5) {
      const [count, p] = leb(at), [min, q] = leb(p + 1);
      if (count !== 1 || b[p] !== 0 || q !== at + n) return b;
      const body = [1, 1, ...enc(min), ...enc(8192)];
      return Buffer.concat([b.subarray(0, i), Buffer.from([5, ...enc(body.length), ...body]), b.subarray(at + n)]);
    }
    i = at + n;
  }
  return b;
}

function modules() {
  const dir = execFileSync('python3', [path.join(__dirname, 'build.py'), REPO, BUILD], { encoding: 'utf8', stdio: ['ignore', 'pipe', 'inherit'] }).trim().split('\n').pop();
  const m = f => new WebAssembly.Module(bounded(fs.readFileSync(path.join(dir, f))));
  const released = new WebAssembly.Module(bounded(require('zlib').brotliDecompressSync(fs.readFileSync(path.join(__dirname, 'released', 'cycles-ledger.wasm.br')))));
  return { released, ledger: m('cycles-ledger.wasm'), depositor: m('depositor.wasm'), cmc: m('fake-cmc.wasm') };
}
const refOf = name => {
  for (const f of fs.readdirSync(path.join(__dirname, 'suites'))) {
    if (f === 'common.js') continue;
    const file = path.join(__dirname, 'suites', f);
    if (require(file)[name]) return { file, name };
  }
  throw new Error('no suite ' + name);
};
const text = o => JSON.stringify(parse(o), (k, v) => (typeof v === 'bigint' ? v.toString() : Buffer.isBuffer(v) ? v.toString('hex') : v));

async function main() {
  const [a, b, t] = process.argv.slice(2);
  if (a === '--replay') return replay(b);
  const props = require('./props.js');
  let id, spec;
  if (a === '--suites') { id = 'dev'; spec = { suites: b.split(','), cats: null }; } else { id = a; spec = props[id]; if (!spec) throw new Error('no property ' + id); }
  const tier = (a === '--suites' ? t : b) === 'thorough' ? 'thorough' : 'quick';
  const t0 = Date.now();
  const env = { modules: modules(), tier, repo: REPO };
  const tb = Date.now();
  const cap = Number(process.env.MC_CAP_S || (tier === 'quick' ? 420 : 3000));
  const names = spec.suites.map(s => (typeof s === 'string' ? s : s[tier])).filter(Boolean);
  const r = await watched(names.map(refOf), env, { cats: spec.cats, ops: spec.ops || null, stopEarly: true, deadline: Date.now() + cap * 1000, validateMs: tier === 'quick' ? 8000 : 60000, hang: Number(process.env.MC_HANG_S || 150) });
  if (r.hang) return hung(id, tier, r.hang);
  report(id, tier, r, spec, (tb - t0) / 1000, (Date.now() - t0) / 1000);
}

function hung(id, tier, h) {
  fs.mkdirSync(path.join(ROOT, 'replays'), { recursive: true });
  const f = path.join(ROOT, 'replays', `${id}-hang.json`);
  fs.writeFileSync(f, JSON.stringify({ property: id, tier, suite: h.suite, start: h.start, route: h.route, cat: 'hang', msg: 'a message does not end' }, null, 1));
  if (id !== 'dev') {
    fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
    fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify({ property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level: 'model_checking', coverage: { states: 0, transitions: 0, traces_validated_against_impl: 0, samples: [JSON.stringify(h)], exhaustive: false }, assumptions: [], wall_s: 0, violations: [{ suite: h.suite, start: h.start, rule: 'hang', message: 'a message does not end', replay: f }] }, null, 1) + '\n');
  }
  console.log(`-- a message does not end: ${h.suite}#${h.start}, alphabet positions ${h.route.join(', ')}`);
  console.log(`VIOLATION property=${id} replay=${f}`);
  process.exit(1);
}

function report(id, tier, r, spec, build, wall) {
  let states = 0, transitions = 0, messages = 0, queries = 0, capped = false, leaves = 0;
  const suites = {}, samples = [];
  for (const [k, s] of Object.entries(r.stats)) {
    states += s.states; transitions += s.transitions; messages += s.messages; queries += s.queries; leaves += s.leaves; capped = capped || s.capped;
    const distinct = Object.keys(s.outcomes).length;
    suites[k] = { ...r.meta[k], states: s.states, transitions: s.transitions, merged: s.merged, histories_ended: s.leaves, longest: s.maxDepth, capped: s.capped, distinct_outcomes: distinct, outcomes: s.outcomes };
    for (const tr of s.traces.slice(-2)) if (samples.length < 12) samples.push(`${k}#${tr.start}: ` + text(tr.ops).slice(0, 1500));
  }
  const known = loadKnown();
  const bad = [], kn = [];
  fs.mkdirSync(path.join(ROOT, 'replays'), { recursive: true });
  r.violations.forEach((v, i) => {
    const k = known.find(x => x.property === id && x.cat === v.cat && x.suite === v.suite && v.msg.includes(x.match));
    if (k) { kn.push(k); return; }
    const f = path.join(ROOT, 'replays', `${id}-${i}.json`);
    fs.writeFileSync(f, JSON.stringify({ property: id, tier, suite: v.suite, start: v.start, cat: v.cat, msg: v.msg, reproduced: v.reproduced, ops: JSON.parse(v.ops) }, null, 1));
    bad.push({ ...v, file: f });
  });
  const ev = {
    property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level: 'model_checking',
    coverage: {
      states, transitions, traces_validated_against_impl: r.validated, samples,
      exhaustive: !capped, histories_ended: leaves, canister_messages: messages, canister_queries: queries, threads: r.threads, suites,
      model: 'none: every state is a state of the compiled canister and every transition runs its code; traces_validated_against_impl counts explored histories that were executed again from installation on a fresh instance and gave the same response, balances, allowances, log length and certified data',
    },
    assumptions: ['one canister message executes at a time and a trap rolls it back (Internet Computer semantics, provided by mc/lib/ic.js)', 'values outside the alphabets and histories beyond the stated depths are not covered'],
    wall_s: wall, violations: bad.map(v => ({ suite: v.suite, start: v.start, rule: v.cat, message: v.msg, replay: v.file })),
  };
  if (id !== 'dev') { fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true }); fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n'); }
  for (const [k, s] of Object.entries(suites)) console.log(`${k}: depth ${s.depth}, ${s.starts} starts, ${s.states} states, ${s.transitions} transitions, ${s.merged} merged${s.capped ? ', CAPPED' : ''}`, id === 'dev' || process.env.MC_VERBOSE ? JSON.stringify(s.outcomes) : `${s.distinct_outcomes} outcomes`);
  console.log(`${id} ${tier}: ${states} states, ${transitions} transitions, ${messages} messages, ${queries} queries, ${r.validated} histories re-executed, ${r.threads} threads, build ${build.toFixed(1)} s, total ${wall.toFixed(1)} s`);
  for (const k of kn) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  if (r.diverged.length) { for (const d of r.diverged.slice(0, 3)) console.log(`diverged: ${d.suite}#${d.start} ${text(d.ops)}`); if (!bad.length) { console.log('a re-executed history gave a different result'); process.exit(3); } }
  for (const v of bad) {
    console.log(`-- ${v.cat} in ${v.suite}#${v.start}: ${v.msg}${v.reproduced ? '' : ' (not reproduced alone)'}`);
    console.log('   history: ' + text(v.ops).slice(0, 3000));
  }
  if (bad.length) {
    if (r.counts.length) console.log('findings: ' + r.counts.map(([k, n]) => `${k} ${n}`).join(', '));
    console.log(`VIOLATION property=${id} replay=${bad[0].file}`);
    process.exit(1);
  }
  if (!transitions) { console.log('nothing was explored'); process.exit(3); }
}
function loadKnown() {
  try { return JSON.parse(fs.readFileSync(path.join(ROOT, 'known-findings.json'))).findings; } catch (e) { return []; }
}

function replay(file) {
  const v = JSON.parse(fs.readFileSync(file));
  const ref = refOf(v.suite);
  const s = require(ref.file)[ref.name]({ modules: modules(), tier: v.tier, repo: REPO });
  if (v.route) { // runs until it is interrupted
    const r = s.init(v.start);
    let node = r.node;
    for (const [i, k] of v.route.entries()) { const o = s.alphabet(node, i)[k]; console.log(stringify(o)); node = s.step(node, o).node; }
    console.log('not reproduced');
    return;
  }
  const r = execute(s, v.start, parse(JSON.stringify(v.ops)), (i, op, x) => {
    console.log(i < 0 ? `start ${v.start}` : stringify(op), '->', JSON.stringify(x.resp, (k, y) => (typeof y === 'bigint' ? y.toString() : y)));
    for (const f of x.findings) console.log(`   ${f.cat}: ${f.msg}`);
  });
  const hit = r.findings.some(f => f.cat === v.cat);
  console.log(hit ? `VIOLATION property=${v.property} replay=${file}` : 'not reproduced');
  process.exit(hit ? 1 : 0);
}
main().catch(e => { console.error(e.stack || e); process.exit(2); });
