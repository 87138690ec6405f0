// The governance contract (C41), and deployment, initialization and upgrade of the proxied contracts (C42).
import fs from 'fs';
import path from 'path';
import * as R from './rt.mjs';
import * as H from './h.mjs';
import * as S from './spec.mjs';
import { Bed, A, flat, showOp } from './bind.mjs';
import { base, mk } from './c_manager.mjs';
import { XBed } from './c_xcvr.mjs';
const u = S.u, be = S.be, E0 = new Uint8Array(0), D = A.dep, CORE = 0x91n, GOV = 0x6000n, TGT = 0x6100n, BADT = 0x6200n, NOCODE = 0x6300n, HI = 1n << 200n, E = n => 10n ** BigInt(n);
const MODULE = R.unhex('000000000000000047656e6572616c507572706f7365476f7665726e616e6365');
// ------------------------------------------------------------------ C41
const pkt = (o = {}) => be(o.module ?? MODULE, u(o.action ?? 1n, 1), u(o.chain ?? 2n, 2), u(o.gov ?? GOV, 20), u(o.target ?? TGT, 20), u(BigInt(o.len ?? (o.data ?? R.unhex('aabbccdd01')).length), 2), o.data ?? R.unhex('aabbccdd01'));
const decPkt = b => { if (b.length < 77 || R.hex(b.subarray(0, 32)) !== R.hex(MODULE)) return null; const n = b[75] * 256 + b[76]; if (b.length !== 77 + n) return null; return { action: BigInt(b[32]), chain: R.b2n(b.subarray(33, 35)), governanceContract: R.b2n(b.subarray(35, 55)), governedContract: R.b2n(b.subarray(55, 75)), callData: b.slice(77) }; };
function govBed(K, o = {}) {
  const W = new R.World(); const cfg = { chainId: 2n, govChain: 1n, govContract: 4n, fee: 0n, ...o }; new H.Core(K, W, CORE, cfg); const con = K.con('Governance'); W.next = GOV; const addr = con.deploy(W, D, [CORE]); const g = new H.Inst(K, W, con, addr); const calls = [];
  for (const [a, fails] of [[TGT, false], [BADT, true]]) { W.account(a).native = x => { x.W.push(calls, [a, x.sender, x.value, x.data]); if (fails) throw new R.Revert(R.str('no'), 'refuses'); return E0; }; } W.account(A.evil).bal = 100n; return { W, g, calls, cfg, addr, used: new Set() };
}
function govStep(bed, op) { // op: {chain, emitter, seq, payload, valid, value}; returns [expected ok, expected call]
  const v = H.vaa(op.chain ?? 1n, op.emitter ?? 4n, op.seq ?? 1n, op.payload, op.valid ?? true), h = H.vaaHash(v); const m = decPkt(op.payload);
  const ok = (op.valid ?? true) && (op.chain ?? 1n) === bed.cfg.govChain && (op.emitter ?? 4n) === bed.cfg.govContract && !bed.used.has(h) && m && m.action === 1n && m.chain === bed.cfg.chainId && m.governanceContract === bed.addr && m.governedContract !== BADT && !(op.value ?? 0n);
  return { v, h, ok: !!ok, call: ok && m.governedContract !== NOCODE && m.governedContract !== bed.addr ? [m.governedContract, bed.addr, 0n, m.callData] : null };
}
const showG = o => `performGovernance(chain=${o.chain ?? 1n} emitter=${flat(o.emitter ?? 4n)} seq=${o.seq ?? 1n} valid=${o.valid ?? true} payload=${R.hex(o.payload)})`;
function govRun(ctx, bed, seq) {
  const m = bed.W.mark(), keep = new Set(bed.used), tr = [];
  for (const op of seq) {
    const w = govStep(bed, op), n0 = bed.calls.length, j0 = bed.W.j.length; tr.push(showG(op)); const r = bed.g.tx(A.evil, 'performGovernance', [w.v], op.value ?? 0n); ctx.count(r.ok);
    if (r.ok !== w.ok) { ctx.bad(r.ok ? 'accepts' : 'rejects', `governance packet was ${r.ok ? 'accepted' : `rejected (${r.err})`}, expected ${w.ok ? 'acceptance' : 'rejection'}`, tr); break; }
    const got = bed.calls.slice(n0); if (flat(got) !== flat(w.call ? [w.call] : [])) { ctx.bad('call', `the packet made the calls ${flat(got)}, expected ${flat(w.call ? [w.call] : [])}`, tr); break; } if (!r.ok && bed.W.j.length !== j0) { ctx.bad('revert', 'a rejected packet changed state', tr); break; } if (r.ok) bed.used.add(w.h);
  }
  ctx.st.states++; ctx.sample(() => seq.map(showG).join(' ; ')); bed.W.undo(m); bed.used = keep;
}
export const GOVERNANCE = {
  focus: () => true, scenarios: tier => [
    {
      name: 'packets', weight: 4, bound: 'VAA validity x emitter x module x action x chain x contracts x call data', run(ctx) {
        const bed = govBed(ctx.K); for (const valid of [true, false]) for (const chain of [0n, 1n, 2n, 257n]) for (const emitter of [0n, 4n, 5n, HI | 4n]) for (const action of [0n, 1n, 2n, 3n, 255n]) for (const pc of [0n, 1n, 2n, 3n, 0x0200n, 258n]) for (const gov of [GOV, TGT, 0n]) govRun(ctx, bed, [{ valid, chain, emitter, payload: pkt({ action, chain: pc, gov }) }]);
        for (const target of [TGT, BADT, NOCODE, GOV]) for (const data of [E0, R.unhex('00'), R.unhex('aabbccdd'), new Uint8Array(1000).fill(7), new Uint8Array(65535)]) govRun(ctx, bed, [{ payload: pkt({ target, data: target === GOV ? E0 : data }), seq: 9n }].filter(o => decPkt(o.payload).governedContract !== GOV));
        for (const g of [pkt(), pkt({ data: E0 })]) { const P = []; for (let n = 0; n <= g.length; n++) P.push(g.slice(0, n)); for (const x of ['00', 'ff', '0000']) P.push(R.cat(g, R.unhex(x))); for (let i = 0; i < g.length; i++) for (let b = 0; b < 8; b++) { const q = g.slice(); q[i] ^= 1 << b; P.push(q); } for (const payload of P) { const m = decPkt(payload); if (m && m.governedContract !== TGT) continue; govRun(ctx, bed, [{ payload }, { payload }]); if (ctx.full()) return; } }
        for (const chainId of [1n, 2n, 10n, 65535n]) for (const govChain of [1n, 2n]) { const b = govBed(ctx.K, { chainId, govChain }); for (const pc of [1n, 2n, 10n, 65535n]) for (const c of [1n, 2n]) govRun(ctx, b, [{ chain: c, payload: pkt({ chain: pc }) }]); }
      },
    },
    {
      name: 'replays', weight: 4, bound: 'all sequences of up to 4 packets', run(ctx) {
        const bed = govBed(ctx.K); const ops = [{ payload: pkt() }, { payload: pkt(), seq: 2n }, { payload: pkt({ data: R.unhex('01') }) }, { payload: pkt({ target: BADT }) }, { payload: pkt({ chain: 3n }) }, { payload: pkt(), valid: false }, { payload: pkt(), valid: 2 }, { payload: pkt({ action: 2n }) }]; const rec = (s, n) => { if (s.length) govRun(ctx, bed, s); if (n && !ctx.full()) for (const o of ops) rec([...s, o], n - 1); }; rec([], ctx.tier === 'quick' ? 5 : 6);
        // a target that calls back with the same packet
        const w = H.vaa(1n, 4n, 77n, pkt()); let inner = null; const nat = bed.W.account(TGT).native; bed.W.account(TGT).native = x => { if (inner === null) { inner = 'x'; inner = bed.g.tx(A.evil, 'performGovernance', [w]).ok; } return E0; }; const r = bed.g.tx(A.evil, 'performGovernance', [w]); ctx.count(r.ok); if (inner) ctx.bad('replay', 'a governed contract replayed the packet from inside its own call', ['performGovernance re-entered with the same VAA']); bed.W.account(TGT).native = nat;
      },
    },
    {
      name: 'codec', bound: 'field values at their boundaries', run(ctx) {
        const { g } = govBed(ctx.K); for (const action of [0n, 1n, 255n]) for (const chain of [0n, 0x0203n, 65535n]) for (const a of [0n, 1n, (1n << 160n) - 1n]) for (const b of [0n, GOV, (1n << 160n) - 1n]) for (const n of [0, 1, 255, 256, 65535, 65536]) { const m = { action, chain, governanceContract: a, governedContract: b, callData: new Uint8Array(n).fill(3) }; const want = n > 65535 ? undefined : be(MODULE, u(action, 1), u(chain, 2), u(a, 20), u(b, 20), u(BigInt(n), 2), m.callData); const got = g.view('encodeGeneralPurposeGovernanceMessage', m); ctx.count(!!got); ctx.st.states++; if (flat(got) !== flat(want)) ctx.bad('encode', `governance message with ${n} bytes of call data is encoded wrongly`, [flat({ ...m, callData: n })]); if (want) { const back = g.view('parseGeneralPurposeGovernanceMessage', want); if (flat(back) !== flat(m)) ctx.bad('decode', 'a governance message does not survive encoding', [flat({ ...m, callData: n })]); } if (ctx.full()) return; }
        ctx.sample('action 1, chain 2');
      },
    },
  ],
};
// ------------------------------------------------------------------ C42
const CALLERS = [D, A.owner2, A.evil, A.pauser2, 0x3000n];
const snapshot = (W, a) => { const acc = W.acc.get(a); return flat([...acc.st.entries()].filter(([k]) => k !== R.IMPL_SLOT).sort((p, q) => (p[0] < q[0] ? -1 : 1)).filter(([, v]) => v !== 0n).map(([k, v]) => [k, v])); };
const deployments = {
  name: 'deployment', weight: 3, bound: 'contract x constructor arguments x caller x direct or proxied', run(ctx) {
    const K = ctx.K; const t = (what, r, want, tr) => { ctx.count(r.ok); ctx.st.states++; if (r.ok !== want) ctx.bad('initialize', `${what} was ${r.ok ? 'accepted' : `rejected (${r.err})`}, expected ${want ? 'acceptance' : 'rejection'}`, [tr ?? what]); };
    for (const name of ['NttManager', 'NttManagerNoRateLimiting', 'WormholeTransceiver']) for (const by of CALLERS) {
      const mkw = () => { const W = new R.World(); W.time = 1000n; new H.Token(W, 0x70n, { decimals: 18n, minter: 0x3000n }); for (const x of [...CALLERS, A.u1]) W.account(x).bal = 100n; if (name === 'WormholeTransceiver') { const m = H.deployProxy(K, W, 'NttManager', D, [0x70n, 1n, 2n, 100n, false], 0x3000n); H.must(m.tx(D, 'initialize'), 'init'); new H.Core(K, W, 0x91n, { fee: 0n, chainId: 2n }); new H.Relayer(K, W, 0x92n, { base: 1n, provider: 9n }); new H.Special(K, W, 0x93n, { base: 1n }); } return W; };
      const args = name === 'NttManager' ? [0x70n, 1n, 2n, 100n, false] : name === 'WormholeTransceiver' ? [0x3000n, 0x91n, 0x92n, 0x93n, 1n, 5n] : [0x70n, 1n, 2n]; const W = mkw(); const p = H.deployProxy(K, W, name, D, args, 0x5000n); const impl = new H.Inst(K, W, p.con, p.impl);
      const go = (what, f, want) => { const m = W.mark(); t(`${name}: ${what} by ${flat(by)}`, f(), want); W.undo(m); };
      go('initialize on the implementation', () => impl.tx(by, 'initialize'), false); go('migrate on the implementation', () => impl.tx(by, 'migrate'), false); go('upgrade on the implementation', () => impl.tx(by, 'upgrade', [p.impl]), false);
      go('migrate before initialization', () => p.tx(by, 'migrate'), false); go('upgrade before initialization', () => p.tx(by, 'upgrade', [p.impl]), false); go('initialize', () => p.tx(by, 'initialize'), by === D); if (name !== 'WormholeTransceiver') go('initialize with ether', () => p.tx(by, 'initialize', [], 1n), false);
      H.must(p.tx(D, 'initialize'), 'init'); go('second initialize', () => p.tx(by, 'initialize'), false); go('migrate', () => p.tx(by, 'migrate'), false);
      const o = p.view('owner'), z = p.view('pauser'); if (o !== D || z !== D) ctx.bad('initialize', `${name}: owner ${flat(o)} and pauser ${flat(z)} after initialization by ${flat(D)}`);
    }
    const W = new R.World(); new H.Token(W, 0x70n, { decimals: 18n, minter: 0x3000n }); for (const dur of [0n, 1n, 86400n]) for (const skip of [true, false]) { let ok = true; const m = W.mark(); try { K.con('NttManager').deploy(W, D, [0x70n, 1n, 2n, dur, skip]); } catch (e) { if (!(e instanceof R.Revert)) throw e; ok = false; } ctx.count(ok); W.undo(m); if (ok !== ((dur === 0n) === skip)) ctx.bad('construct', `manager with rate limit duration ${dur} and skipping ${skip} was ${ok ? 'accepted' : 'rejected'}`); }
    for (const [mode, chain, name] of [[0n, 2n, 'LOCKING'], [1n, 7n, 'BURNING']]) { const i = H.deployProxy(K, W, 'NttManager', D, [0x70n, mode, chain, 100n, false]); H.must(i.tx(D, 'initialize'), 'init'); const got = [i.view('token'), i.view('mode'), i.view('getMode'), i.view('chainId'), i.view('rateLimitDuration'), i.view('tokenDecimals')]; if (flat(got) !== flat([0x70n, mode, mode, chain, 100n, 18n])) ctx.bad('construct', `${name} manager reports ${flat(got)}`); }
    ctx.sample('initialize by a stranger');
  },
};
function upgrades(part) {
  return {
    name: `upgrades-${part}`, weight: 4, bound: 'new implementation (same, every immutable changed in turn, migrating, failing, not a contract) x caller x state; storage compared word by word', run(ctx) {
      const K = ctx.K; const good = [0x70n, 1n, 2n, 100n, false];
      if (part === 'manager') {
        const bed = new Bed(K, { mode: 1, duration: 100n, mocks: 2, setup: [...base({ thr: 2n, inL: 5n * E(18), outL: E(18) }), { k: 'transfer', by: A.u1, amt: 5n * E(18), chain: 3n, to: 0x55n, refund: 0x56n, queue: true, instr: Uint8Array.of(0), value: 100n }, { k: 'attest', by: 0xa0n, chain: 3n, src: A.peer, msg: mk(1n, 5n) }] }); const W = bed.W; new H.Token(W, 0x71n, { decimals: 18n, minter: 0x3000n });
        const news = [['same', 'NttManager', good, true], ['other token', 'NttManager', [0x71n, 1n, 2n, 100n, false], false], ['other mode', 'NttManager', [0x70n, 0n, 2n, 100n, false], false], ['other chain', 'NttManager', [0x70n, 1n, 3n, 100n, false], false], ['other duration', 'NttManager', [0x70n, 1n, 2n, 101n, false], false], ['rate limiting removed', 'NttManagerNoRateLimiting', [0x70n, 1n, 2n], false], ['migrating', 'MgrMig', [0x71n, 1n, 2n, 100n, false], true], ['migrating, same', 'MgrMig', good, true], ['failing migration', 'MgrBad', good, false], ['no code', null, 0x9999n, false], ['zero', null, 0n, false]];
        const impls = news.map(([n, c, a, ok]) => [n, c ? K.con(c).deploy(W, D, a) : a, ok, c]);
        const states = [['', []], ['paused ', [{ k: 'pause', by: D }]], ['new owner ', [{ k: 'transferOwnership', by: D, to: A.owner2 }]]];
        for (const [sn, ops] of states) {
          const m0 = W.mark(); let Z = bed.S; for (const op of ops) { const r = bed.apply(op, Z); if (r.diffs.length) { ctx.sink(r.diffs, [op]); return; } Z = r.S; }
          for (const by of CALLERS) for (const [n, impl, ok, cn] of impls) {
            const m = W.mark(), was = snapshot(W, 0x3000n), i0 = W.account(0x3000n).st.get(R.IMPL_SLOT); const r = bed.m.tx(by, 'upgrade', [impl]); ctx.count(r.ok); ctx.st.states++; const want = ok && by === Z.owner; const tr = [`${sn}manager.upgrade(${n}) by ${flat(by)}`];
            if (r.ok !== want) ctx.bad('upgrade', `upgrade to ${n} by ${flat(by)} was ${r.ok ? 'accepted' : `rejected (${r.err})`}, expected ${want ? 'acceptance' : 'rejection'}`, tr);
            else if (r.ok) {
              if (W.account(0x3000n).st.get(R.IMPL_SLOT) !== impl) ctx.bad('upgrade', 'the upgrade did not take effect', tr); if (bed.m.view('getMigratesImmutables') !== false) ctx.bad('upgrade', 'the permission to change immutables outlives the upgrade', tr);
              if (cn !== 'MgrMig') { const d = bed.compare(Z, { k: 'upgrade' }); if (d.length) ctx.sink(d.map(x => ({ tag: 'state', text: x.text })), tr); }
              for (const x of CALLERS) for (const f of ['migrate', 'initialize']) { const q = W.mark(); const a = bed.m.tx(x, f); ctx.count(a.ok); if (a.ok) ctx.bad('upgrade', `${f} succeeded after the upgrade`, tr); W.undo(q); }
              for (const [n2, impl2, ok2] of impls) { const q = W.mark(); const a = bed.m.tx(by, 'upgrade', [impl2]); ctx.count(a.ok); const w2 = n.startsWith('migrating') ? null : ok2; if (w2 !== null && a.ok !== w2) ctx.bad('upgrade', `second upgrade to ${n2} was ${a.ok ? 'accepted' : `rejected (${a.err})`}`, [...tr, `then upgrade(${n2})`]); if (n === 'migrating' && n2 === 'same' && a.ok) ctx.bad('upgrade', 'after a migration changed the token an ordinary upgrade changed it back', [...tr, `then upgrade(${n2})`]); W.undo(q); }
            } else if (snapshot(W, 0x3000n) !== was || W.account(0x3000n).st.get(R.IMPL_SLOT) !== i0) ctx.bad('upgrade', 'a rejected upgrade changed state', tr);
            W.undo(m); if (ctx.full()) return;
          }
          W.undo(m0);
        }
        ctx.sample('upgrade(other token) by the owner');
      } else {
        const W = new R.World(); W.time = 1000n; for (const t of [0x70n, 0x71n]) new H.Token(W, t, { decimals: 18n, minter: 0x3000n }); const m1 = H.deployProxy(K, W, 'NttManager', D, good, 0x3000n), m2 = H.deployProxy(K, W, 'NttManager', D, [0x71n, 1n, 2n, 100n, false], 0x4000n); for (const m of [m1, m2]) H.must(m.tx(D, 'initialize'), 'init');
        for (const a of [0x91n, 0x81n]) new H.Core(K, W, a, { fee: 0n, chainId: 2n }); for (const a of [0x92n, 0x82n]) new H.Relayer(K, W, a, { base: 1n, provider: 9n }); for (const a of [0x93n, 0x83n]) new H.Special(K, W, a, { base: 1n });
        const args = [0x3000n, 0x91n, 0x92n, 0x93n, 1n, 5n]; const x = H.deployProxy(K, W, 'WormholeTransceiver', D, args, 0x5000n); H.must(x.tx(D, 'initialize'), 'init'); H.must(x.tx(D, 'setWormholePeer', [3n, 0xb5n]), 'peer'); H.must(m1.tx(D, 'setTransceiver', [0x5000n]), 'set'); H.must(m1.tx(D, 'setPeer', [3n, A.peer, 18n, E(18)]), 'peer'); H.must(x.tx(A.u1, 'receiveMessage', [H.vaa(3n, 0xb5n, 1n, S.encXcvr(A.peer, 0x3000n, S.encMsg(mk(1n, 5n))))]), 'receive');
        const alt = (i, v) => args.map((a, j) => (j === i ? v : a)); const news = [['same', args, true], ['other manager', alt(0, 0x4000n), false], ['other core', alt(1, 0x81n), false], ['other relayer', alt(2, 0x82n), false], ['other special relayer', alt(3, 0x83n), false], ['other consistency level', alt(4, 2n), false], ['other gas limit', alt(5, 6n), true]].map(([n, a, ok]) => [n, K.con('WormholeTransceiver').deploy(W, D, a), ok]);
        news.push(['no code', 0x9999n, false]);
        for (const owner of [D, A.owner2]) {
          const m0 = W.mark(); if (owner !== D) H.must(m1.tx(D, 'transferOwnership', [owner]), 'own'); const o = x.view('owner'); if (o !== owner) ctx.bad('owner', `the transceiver's owner is ${flat(o)} after the manager's ownership went to ${flat(owner)}`, ['manager.transferOwnership']);
          for (const by of CALLERS) for (const [n, impl, ok] of news) {
            const m = W.mark(), was = snapshot(W, 0x5000n); const obs = () => flat([x.view('owner'), x.view('pauser'), x.view('getWormholePeer', 3n), x.view('getWormholePeer', 4n), x.view('isVAAConsumed', H.vaaHash(H.vaa(3n, 0xb5n, 1n, S.encXcvr(A.peer, 0x3000n, S.encMsg(mk(1n, 5n)))))), x.view('nttManager'), x.view('nttManagerToken')]); const before = obs(); const r = x.tx(by, 'upgrade', [impl]); ctx.count(r.ok); ctx.st.states++; const want = ok && by === owner; const tr = [`transceiver.upgrade(${n}) by ${flat(by)}`];
            if (r.ok !== want) ctx.bad('upgrade', `upgrade of the transceiver to ${n} by ${flat(by)} was ${r.ok ? 'accepted' : `rejected (${r.err})`}, expected ${want ? 'acceptance' : 'rejection'}`, tr); else if (r.ok) { if (obs() !== before) ctx.bad('state', `the upgrade changed ${before} to ${obs()}`, tr); for (const c of CALLERS) for (const f of ['migrate', 'initialize']) { const a = x.tx(c, f); ctx.count(a.ok); if (a.ok) ctx.bad('upgrade', `${f} succeeded after the upgrade`, tr); } const again = x.tx(A.u1, 'receiveMessage', [H.vaa(3n, 0xb5n, 1n, S.encXcvr(A.peer, 0x3000n, S.encMsg(mk(1n, 5n))))]); ctx.count(again.ok); if (again.ok) ctx.bad('state', 'a consumed VAA was accepted again after the upgrade', tr); } else if (snapshot(W, 0x5000n) !== was) ctx.bad('upgrade', 'a rejected upgrade changed state', tr);
            W.undo(m); if (ctx.full()) return;
          }
          W.undo(m0);
        }
        ctx.sample('upgrade(other core) by the owner');
      }
    },
  };
}
// state written by the contracts as they were deployed must read the same, and go on working, under the current implementation
export function goldenBed(K) { return new Bed(K, { mode: 1, duration: 100n, mocks: 3, chains: [3n, 4n], setup: [...base({ n: 3, thr: 2n, inL: 5n * E(18), outL: E(18) }), { k: 'setPeer', by: D, chain: 4n, addr: A.peerB, dec: 6n, limit: 7n * E(18) }, { k: 'rmT', by: D, t: 0xa1n }, { k: 'transfer', by: A.u1, amt: 5n * E(18), chain: 3n, to: 0x55n, refund: 0x56n, queue: true, instr: S.encInstr([[0, R.unhex('aabb')]]), value: 100n }, { k: 'transfer', by: A.u2, amt: E(17), chain: 4n, to: 0x57n, refund: 0x58n, queue: false, instr: Uint8Array.of(0), value: 100n }, { k: 'attest', by: 0xa0n, chain: 3n, src: A.peer, msg: mk(1n, 5n) }, ...[0xa0n, 0xa2n].flatMap(by => [{ k: 'attest', by, chain: 3n, src: A.peer, msg: mk(2n, 9n * E(8)) }, { k: 'attest', by, chain: 4n, src: A.peerB, msg: mk(3n, 5n) }]), { k: 'transferPauser', by: D, to: A.pauser2 }, { k: 'transferOwnership', by: D, to: A.owner2 }, { k: 'time', dt: 40n }, { k: 'pause', by: A.pauser2 }] }); }
export function goldenX(K) {
  const b = new XBed(K, { setup: [{ k: 'init', by: D, value: 3n }, { k: 'setPeer', by: D, chain: 3n, addr: 0xb5n, value: 3n }, { k: 'setPeer', by: D, chain: 4n, addr: 0xb6n, value: 3n }, { k: 'setEvm', by: D, chain: 3n, on: true }, { k: 'setRelay', by: D, chain: 3n, on: true }, { k: 'setSpecial', by: D, chain: 4n, on: true }, { k: 'setEvm', by: D, chain: 4n, on: true }, { k: 'setEvm', by: D, chain: 4n, on: false }, { k: 'recv', by: A.u1, chain: 3n, emitter: 0xb5n, seq: 1n, payload: S.encXcvr(A.peer, 0x3000n, S.encMsg(mk(1n, 5n))) }, { k: 'relayed', by: 0x92n, chain: 4n, emitter: 0xb6n, hash: 0x77n, payload: S.encXcvr(A.peer, 0x3000n, S.encMsg(mk(2n, 5n))) }, { k: 'pauser', by: D, to: A.u1 }, { k: 'mgrOwner', by: 0x3000n, to: A.owner2 }] }); return b;
}
export const dump = (W, a) => [...W.account(a).st.entries()].filter(([k, v]) => k !== R.IMPL_SLOT && v !== 0n).map(([k, v]) => ['0x' + k.toString(16), '0x' + v.toString(16)]).sort();
const restore = (W, a, g) => { const st = W.account(a).st, i = st.get(R.IMPL_SLOT); st.clear(); st.set(R.IMPL_SLOT, i); for (const [k, v] of g) st.set(BigInt(k), BigInt(v)); };
const stored = {
  name: 'deployed-state', weight: 3, bound: 'storage written by the deployed manager and transceiver, read and continued by the current implementation', run(ctx) {
    const golden = JSON.parse(fs.readFileSync(path.join(H.HERE, 'golden/storage.json'), 'utf8'));
    const follow = (bed, addr, g, lists, what) => {
      restore(bed.W, addr, g); bed.W.j.length = 0; const d = bed.compare(bed.S, { k: `loading the ${what}'s deployed storage` }); ctx.count(!d.length); ctx.st.states++; if (d.length) { ctx.bad('state', d.map(x => x.text).join('; '), [`${what}: storage of a deployed contract`]); return; }
      for (const seq of lists) { const m = bed.W.mark(); let Z = bed.S; const tr = [`${what}: storage of a deployed contract`]; for (const op of seq) { tr.push(showOp(op)); const r = bed.apply(op, Z); ctx.count(r.ok); if (r.diffs.length) { ctx.sink(r.diffs.map(x => ({ tag: 'state', text: x.text })), tr); break; } Z = r.S; } ctx.st.states++; bed.W.undo(m); if (ctx.full()) return; }
    };
    const up = { k: 'unpause', by: A.owner2 }, dg = S.digestOf(3n, mk(2n, 9n * E(8))), t = { k: 'time', dt: 100n };
    follow(goldenBed(ctx.K), 0x3000n, golden.manager, [[up], [up, { k: 'compOut', by: A.u1, seq: 0n, value: 100n }, t, { k: 'compOut', by: A.u1, seq: 0n, value: 100n }, { k: 'compOut', by: A.u1, seq: 0n, value: 100n }], [up, { k: 'cancel', by: A.u1, seq: 0n }], [up, t, { k: 'compIn', by: A.u1, dg }, { k: 'compIn', by: A.u1, dg }], [up, { k: 'attest', by: 0xa0n, chain: 3n, src: A.peer, msg: mk(1n, 5n) }], [up, { k: 'attest', by: 0xa2n, chain: 3n, src: A.peer, msg: mk(1n, 5n) }], [up, { k: 'exec', by: A.evil, chain: 4n, src: A.peerB, msg: mk(3n, 5n) }], [{ k: 'addT', by: A.owner2, t: 0xa1n }], [{ k: 'setThr', by: A.owner2, n: 1n }, up, { k: 'exec', by: A.evil, chain: 3n, src: A.peer, msg: mk(1n, 5n) }], [{ k: 'setOut', by: A.owner2, limit: 2n * E(18) }], [{ k: 'setPeer', by: A.owner2, chain: 4n, addr: 9n, dec: 18n, limit: E(18) }], [up, { k: 'transfer', by: A.u1, amt: E(17), chain: 4n, to: 1n, refund: 2n, queue: true, instr: Uint8Array.of(0), value: 100n }]], 'manager');
    const rc = (o = {}) => ({ k: 'recv', by: A.u1, chain: 3n, emitter: 0xb5n, seq: 1n, payload: S.encXcvr(A.peer, 0x3000n, S.encMsg(mk(1n, 5n))), ...o });
    follow(goldenX(ctx.K), 0x5000n, golden.transceiver, [[rc()], [rc({ seq: 2n })], [{ k: 'relayed', by: 0x92n, chain: 4n, emitter: 0xb6n, hash: 0x77n, payload: S.encXcvr(A.peer, 0x3000n, S.encMsg(mk(2n, 5n))) }], [{ k: 'setPeer', by: A.owner2, chain: 3n, addr: 0xb7n, value: 3n }], [{ k: 'setPeer', by: A.owner2, chain: 5n, addr: 0xb7n, value: 3n }], [{ k: 'init', by: D, value: 3n }], [{ k: 'send', by: 0x3000n, chain: 3n, ins: E0, msg: E0, peer: 1n, refund: 2n, value: 114n }], [{ k: 'send', by: 0x3000n, chain: 4n, ins: E0, msg: E0, peer: 1n, refund: 2n, value: 63n }]], 'transceiver');
    const gb = govBed(ctx.K), p = pkt(); restore(gb.W, gb.addr, golden.governance); const r = gb.g.tx(A.evil, 'performGovernance', [H.vaa(1n, 4n, 1n, p)]); ctx.count(r.ok); if (r.ok) ctx.bad('state', 'a packet consumed by the deployed governance contract is accepted again', ['governance: storage of a deployed contract']);
    ctx.sample('manager: storage of a deployed contract');
  },
};
export function goldenGov(K) { const gb = govBed(K); H.must(gb.g.tx(A.evil, 'performGovernance', [H.vaa(1n, 4n, 1n, pkt())]), 'gov'); return gb; }
export const UPGRADE = { focus: () => true, scenarios: () => [stored, deployments, upgrades('manager'), upgrades('transceiver')] };
