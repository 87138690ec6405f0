// main.mjs check <ID> <tier> <evidence dir> <known findings>: runs the scenarios of one property in worker processes.
import { fork } from 'child_process';
import fs from 'fs';
import os from 'os';
import path from 'path';
import { fileURLToPath } from 'url';
import * as R from './rt.mjs';
const self = fileURLToPath(import.meta.url);
const [cmd, id, tier, evDir, kfFile] = process.argv.slice(2);
const { CHECKS } = await import('./checks.mjs');
const C = CHECKS[id]; if (!C) { console.log('unknown property ' + id); process.exit(2); }
const list = C.scenarios(tier);
const esc = x => JSON.parse(JSON.stringify(x, (k, v) => typeof v === 'bigint' ? v.toString() : v));
if (cmd === 'worker') {
  const { Kit } = await import('./h.mjs'); const { showOp } = await import('./bind.mjs');
  let K; try { K = new Kit(); } catch (e) { process.send({ fatal: String(e.message) }); }
  process.on('message', async i => {
    if (i < 0) { const cov = {}; for (const [s, n] of K.P.covSites) cov[s] = K.P.cov[n]; process.send({ bye: true, cov }, () => process.exit(0)); return; }
    const sc = list[i], t0 = Date.now(); const st = { name: sc.name, bound: sc.bound, states: 0, transitions: 0, accepted: 0, rejected: 0, other: 0 }, viol = [];
    let sample = '';
    const ctx = {
      K, tier, st,
      add(r) { st.states += r.states; st.transitions += r.transitions; st.accepted += r.accepted; st.rejected += r.transitions - r.accepted; },
      sink(diffs, trace) { const mine = diffs.filter(d => C.focus(d.tag)); if (!mine.length) { st.other++; return false; } if (viol.length < 5) viol.push({ tag: mine[0].tag, text: mine.map(d => d.text).join('; '), trace: trace.map(o => typeof o === 'string' ? o : showOp(o)) }); return true; },
      bad(tag, text, trace = []) { return ctx.sink([{ tag, text }], trace); },
      count(ok) { st.transitions++; if (ok) st.accepted++; else st.rejected++; },
      sample(s) { if (!sample) sample = typeof s === 'string' ? s : s(); },
      full: () => viol.length >= 5,
    };
    try { await sc.run(ctx); } catch (e) {
      if (e.diffs) { ctx.sink(e.diffs, [e.op]); } else if (e instanceof R.Unsupported || e.name === 'SolError') { process.send({ fatal: `cannot run this source: ${e.message}` }); return; } else { Error.stackTraceLimit = 20; process.send({ fatal: `${sc.name}: ${e.message} ${e.stack}` }); return; }
    }
    st.wall_s = (Date.now() - t0) / 1000; process.send({ i, st, viol, sample });
  });
  process.send({ ready: true });
} else {
  const t0 = Date.now(), N = Math.min(+(process.env.NTT_JOBS || os.cpus().length), list.length); let next = 0, fatal = null; const res = [], cov = {};
  const order = list.map((s, i) => i).sort((a, b) => (list[b].weight || 1) - (list[a].weight || 1));
  await Promise.all(Array.from({ length: N }, () => new Promise(done => {
    const w = fork(self, ['worker', id, tier], { execArgv: ['--max-old-space-size=3500', '--stack-size=3000'] }); const give = () => w.send(next < order.length && !fatal ? order[next++] : -1);
    w.on('message', m => { if (m.fatal) { fatal = m.fatal; w.kill(); } else if (m.bye) { for (const k in m.cov) cov[k] = (cov[k] || 0) + m.cov[k]; } else { if (m.st) res[m.i] = m; give(); } });
    w.on('exit', (c, s) => { if (c && !fatal) fatal = `worker exited with ${c}`; else if (s && !fatal) fatal = `worker killed by ${s}`; done(); });
  })));
  if (fatal) { console.log(fatal); process.exit(2); }
  const kf = fs.existsSync(kfFile) ? fs.readFileSync(kfFile, 'utf8').split('\n').filter(l => l.startsWith(`known: property=${id} `)).map(l => { const [a, b] = l.slice(`known: property=${id} `.length).split(' ## '); return { sub: a.trim(), what: b || a }; }) : [];
  const viol = res.flatMap(r => r.viol.map(v => ({ ...v, scenario: r.st.name }))), fresh = []; const known = new Set();
  for (const v of viol) { const k = kf.find(k => (v.text + ' ' + v.trace.join(' ')).includes(k.sub)); if (k) known.add(k.what); else fresh.push(v); }
  const sum = k => res.reduce((a, r) => a + r.st[k], 0);
  const repo = (process.env.NTT_REPO || '/repo') + '/'; const lines = Object.keys(cov).filter(k => k.startsWith(repo)), hit = lines.filter(k => cov[k] > 0);
  const ev = {
    property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level: 'model_checking', wall_s: (Date.now() - t0) / 1000,
    coverage: {
      states: sum('states'), transitions: sum('transitions'), traces_validated_against_impl: sum('transitions'),
      validation: 'every transition counted was executed on the Solidity sources compiled from /repo/evm by the engine in /verif/evm, and its outcome compared with the reference model',
      accepted: sum('accepted'), rejected: sum('rejected'), diverged_outside_focus: sum('other'), exhaustive: true, statements_compiled: lines.length, statements_executed: hit.length,
      scenarios: res.map(r => r.st), samples: res.map(r => r.sample ? `${r.st.name}: ${r.sample}` : null).filter(Boolean).slice(0, 12),
    }, violations: fresh.length, violation_reports: fresh.slice(0, 20), known_findings: [...known],
  };
  fs.mkdirSync(evDir, { recursive: true }); fs.writeFileSync(path.join(evDir, id + '.json'), JSON.stringify(esc(ev), null, 1));
  console.log(`${id} ${tier}: ${ev.coverage.states} states, ${ev.coverage.transitions} transitions (${ev.coverage.accepted} accepted), ${hit.length}/${lines.length} statements, ${ev.wall_s.toFixed(1)} s`);
  if (process.env.NTT_UNCOVERED) for (const k of lines.filter(k => !cov[k]).sort()) console.log('uncovered', k);
  for (const k of known) console.log(`KNOWN-FINDING: property=${id} ${k}`);
  if (fresh.length) {
    const p = path.join(evDir, `replay-${id}.json`); fs.writeFileSync(p, JSON.stringify(esc(fresh), null, 1)); for (const v of fresh.slice(0, 3)) console.log(`${v.scenario}: ${v.text}\n   ${v.trace.join('\n   ')}`);
    console.log(`VIOLATION property=${id} replay=${p}`); process.exit(1);
  }
  process.exit(0);
}
