// main.mjs check C44|C48 <tier> <evidence dir> <known findings>
process.on("uncaughtException", e => { console.log("failed: " + e.message); process.exit(2); });
import fs from 'fs';
import path from 'path';
import { load } from './bundle.mjs';
const [, id, tier, evDir, kfFile] = process.argv.slice(2); const t0 = Date.now();
const { checks } = await import(id === 'C48' ? './routes.mjs' : './wire.mjs');
let m; try { m = await load(id === 'C48' ? ['defs', 'route'] : ['defs']); } catch (e) { console.log('cannot load the TypeScript sources: ' + e.message); process.exit(2); }
const kf = fs.existsSync(kfFile) ? fs.readFileSync(kfFile, 'utf8').split('\n').filter(l => l.startsWith(`known: property=${id} `)).map(l => { const [a, b] = l.slice(`known: property=${id} `.length).split(' ## '); return { sub: a.trim(), what: b || a }; }) : [];
const stats = [], fresh = [], known = new Set(), samples = [];
for (const sc of checks(m, tier)) {
  const st = { name: sc.name, bound: sc.bound, states: 0, transitions: 0, accepted: 0, rejected: 0 }, t = Date.now(); let n = 0;
  const c = { st, count(ok) { st.transitions++; if (ok) st.accepted++; else st.rejected++; }, bad(text) { const k = kf.find(k => text.includes(k.sub)); if (k) known.add(k.what); else { n++; if (n <= 5) fresh.push({ scenario: sc.name, text }); } }, full: () => n >= 5, sample: s => samples.push(s) };
  await sc.run(c); st.wall_s = (Date.now() - t) / 1000; stats.push(st);
}
const sum = k => stats.reduce((a, s) => a + s[k], 0);
const ev = { property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level: 'model_checking', wall_s: (Date.now() - t0) / 1000, coverage: { states: sum('states'), transitions: sum('transitions'), traces_validated_against_impl: sum('transitions'), validation: id === 'C48' ? 'every call counted was made on the route classes of /repo/sdk/route, bundled from the current sources, and compared with an independent model of the transfer and its configuration' : 'every value counted was encoded or decoded by the layouts of /repo/sdk/definitions, bundled from the current sources, and compared with an independent definition of the wire format', accepted: sum('accepted'), rejected: sum('rejected'), exhaustive: true, scenarios: stats, samples: samples.slice(0, 12) }, violations: fresh.length, violation_reports: fresh.slice(0, 20), known_findings: [...known] };
fs.mkdirSync(evDir, { recursive: true }); fs.writeFileSync(path.join(evDir, id + '.json'), JSON.stringify(ev, null, 1));
console.log(`${id} ${tier}: ${ev.coverage.states} ${id === 'C48' ? 'states' : 'values'}, ${ev.coverage.transitions} ${id === 'C48' ? 'calls' : 'encodings and decodings'}, ${ev.wall_s.toFixed(1)} s`);
for (const k of known) console.log(`KNOWN-FINDING: property=${id} ${k}`);
if (fresh.length) { const p = path.join(evDir, `replay-${id}.json`); fs.writeFileSync(p, JSON.stringify(fresh, null, 1)); for (const v of fresh.slice(0, 4)) console.log(`${v.scenario}: ${v.text}`); console.log(`VIOLATION property=${id} replay=${p}`); process.exit(1); }
process.exit(0);
