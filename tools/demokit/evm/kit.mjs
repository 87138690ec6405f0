// A manager with recording transceivers, a token and funded users, for demonstrations.
import * as R from './src/rt.mjs';
import * as H from './src/h.mjs';
export { R, H };
export const u = (v, n) => R.n2b(v, n), hex = R.unhex;
export const D = 0xd0n, U1 = 0x11n, U2 = 0x12n, SINK = 0x15n, EVIL = 0x66n, PEER = 0xbbn, E18 = 10n ** 18n, I0 = Uint8Array.of(0);
export const transfer = (amt, o = {}) => R.cat(hex('994e5454'), u(o.dec ?? 8n, 1), u(amt, 8), u(5n, 32), u(o.to ?? SINK, 32), u(o.toChain ?? 2n, 2));
export const message = (id, amt, o = {}) => ({ id, sender: 0x77n, payload: transfer(amt, o) });
export const encMessage = m => R.cat(u(m.id, 32), u(m.sender, 32), u(BigInt(m.payload.length), 2), m.payload);
export const digest = (chain, m) => R.keccak(R.cat(u(chain, 2), encMessage(m)));
export const envelope = (src, dst, m) => R.cat(hex('9945ff10'), u(src, 32), u(dst, 32), u(BigInt(m.length), 2), m, u(0n, 2));
export function fail(what) { console.log('FAILED: ' + what); process.exit(1); }
export function check(c, what) { if (!c) fail(what); }
export function ok(r, what) { if (!r.ok) fail(`${what} was rejected: ${r.err}`); return r.ret; }
export function no(r, what) { if (r.ok) fail(`${what} was accepted`); }
export function manager(o = {}) { // {mode, decimals, duration, n transceivers, chains, limit}
  const K = new H.Kit(), W = new R.World(); W.time = 1000000n; W.chainid = 1n; const mode = o.mode ?? 0, A = 0x3000n;
  const tok = new H.Token(W, 0x70n, { decimals: o.decimals ?? 18n, fee: o.fee ?? 0n, minter: mode === 1 ? A : null, hook: null });
  const m = H.deployProxy(K, W, 'NttManager', D, [0x70n, BigInt(mode), 2n, o.duration ?? 86400n, (o.duration ?? 86400n) === 0n], A); ok(m.tx(D, 'initialize'), 'initialize');
  const t = []; for (let i = 0; i < (o.n ?? 2); i++) { t.push(new H.Mock(K, W, 0xa0n + BigInt(i), { price: BigInt(5 + 2 * i), perByte: o.perByte ?? 0n })); ok(m.tx(D, 'setTransceiver', [t[i].addr]), 'setTransceiver'); }
  for (const c of o.chains ?? [3n]) ok(m.tx(D, 'setPeer', [c, PEER, 18n, o.inLimit ?? 100n * E18]), 'setPeer');
  ok(m.tx(D, 'setOutboundLimit', [o.outLimit ?? 100n * E18]), 'setOutboundLimit');
  for (const x of [U1, U2, EVIL]) { tok.give(x, 1000n * E18); W.account(x).bal = 1000000n; }
  const later = s => { W.time += s; }; const send = (by, amt, x = {}) => m.tx(by, 'transfer', [amt, x.chain ?? 3n, x.to ?? 0x55n, x.refund ?? 0x56n, x.queue ?? true, x.ins ?? I0], x.value ?? 100n);
  const attest = (i, msg, x = {}) => m.tx(t[i].addr, 'attestationReceived', [x.chain ?? 3n, x.src ?? PEER, msg]); const exec = (msg, x = {}) => m.tx(EVIL, 'executeMsg', [x.chain ?? 3n, x.src ?? PEER, msg]);
  return { K, W, tok, m, t, later, send, attest, exec, bal: a => tok.bal(a), addr: A };
}
export function transceiver(o = {}) { // the Wormhole transceiver in front of a recording manager
  const K = new H.Kit(), W = new R.World(); W.time = 1000n; W.chainid = 1n; const MGR = 0x3000n, X = 0x5000n, got = [];
  W.account(MGR).native = H.native(K.con('INttManager'), { token: () => 0x70n, getMode: () => 1n, tokenDecimals: () => 18n, attestationReceived: (x, chain, src, m) => { got.push({ chain, src, m }); } }, H.native(K.con('IOwnableUpgradeable'), { owner: () => D }));
  const core = new H.Core(K, W, 0x91n, { fee: o.fee ?? 3n, chainId: 2n }), rel = new H.Relayer(K, W, 0x92n, { base: 100n, provider: 0x99n }), spc = new H.Special(K, W, 0x93n, { base: 40n });
  const x = H.deployProxy(K, W, 'WormholeTransceiver', D, [MGR, 0x91n, 0x92n, 0x93n, 15n, 5n], X); for (const a of [D, MGR, 0x92n, EVIL]) W.account(a).bal = 1000000n;
  ok(x.tx(D, 'initialize', [], o.fee ?? 3n), 'initialize'); return { K, W, x, core, rel, spc, got, MGR, X, fee: o.fee ?? 3n };
}
