// Self-test of the Solidity engine: language features with answers computed by hand.
import * as R from '../src/rt.mjs';
import * as H from '../src/h.mjs';
import path from 'path'; import { fileURLToPath } from 'url';
const K = new H.Kit(); const con = K.P.contract('Feat', path.join(path.dirname(fileURLToPath(import.meta.url)), 'Feat.sol'));
const W = new R.World(); W.time = 777n; const a = con.deploy(W, 0xd0n, []); const I = new H.Inst(K, W, con, a); W.account(0xd0n).bal = 1000n;
let bad = 0; const j = x => JSON.stringify(x, (k, v) => typeof v === 'bigint' ? v.toString() : v instanceof Uint8Array ? '0x' + R.hex(v) : v);
function t(name, args, want, value) { let r; try { r = I.tx(0xd0n, name, args, value ?? 0n); } catch (e) { console.log('FAIL', name, e.message.slice(0, 300)); bad++; return; } const got = r.ok ? j(r.ret) : 'REVERT'; const w = want === 'REVERT' ? want : j(want); if (got !== w) { console.log('FAIL', name, j(args), 'got', got, r.err ?? '', 'want', w); bad++; } }
const B = s => R.str(s), E = R.unhex('');
t('who', [], B('feat>base2>base1>base0'));
t('mods', [2n], 12n); t('ctrNow', [], 206n); t('mods', [0n], 'REVERT'); t('ctrNow', [], 206n);
t('tern', [5n, 3n], [3n, 5n, true]); t('tern', [4n, 4n], [4n, 4n, false]);
{ const f = n => { let s = 0; for (let i = 0; i < n; i++) { if (i % 3 === 0) continue; if (i > 20) break; s += i; } let q = n; while (q > 0) { q--; if (q === 5) break; s++; } do { s++; if (s % 7 === 0) continue; s += 2; } while (s < 60); return BigInt(s); }; for (const n of [0, 1, 4, 7, 30]) t('loops', [BigInt(n)], f(n)); }
t('wrap', [200n, 100n], [44n, 100n, 32n, 100n]); t('wrap', [3n, 5n], [8n, 254n, 15n, -2n]); t('checkedAdd', [200n, 55n], 255n); t('checkedAdd', [200n, 56n], 'REVERT');
t('casts', [0x11223344556677889900aabbccddeefff0n], [0xf0n, 0xaabbccddeefff0n, 0xddeefff0n, 0x11223344556677889900aabbccddeefff0n, 0x11223344556677889900aabbccddeefff0n, -16n, 0xf0n]);
t('structs', [], [115n, 80n, R.keccak(R.encTuple([{ k: 'array', base: { k: 'uint', bits: 16 }, len: null }, { k: 'bytes' }, { k: 'uint', bits: 64 }], [[7n, 0n, 9n], B('abc'), 100n]))]);
t('nestedMap', [1n, 2n, 5n], (1n << 256n) - 6n); t('nested', [1n, 2n], 5n);
t('arrays', [], [28n, 52n, 1n + 9n + 65n + 4n]); t('arr', [1n], 25n); t('arr', [2n], 'REVERT'); t('blob', [], B('xyzA')); t('name', [], B('feat')); t('col', [], 1n);
t('packed', [], [(1n << 128n) - 1n, 0x1122334455667787n, false, 0xaabbccddeen, -5n]);
t('bits', [0x1fn], [0x1fffn, 0x0en, 0x0fn, true]);
t('enc', [0x0107n, R.unhex('aabb')], [R.unhex('07aabb0002' + '0'.repeat(36) + '0107'), R.encTuple([{ k: 'uint', bits: 256 }, { k: 'bytes' }, { k: 'string' }], [0x107n, R.unhex('aabb'), B('lit')]), R.cat(R.n2b(R.selector('ext(uint256)'), 4), R.n2b(0x107n, 32)), R.keccak(R.cat(R.unhex('aabb'), R.n2b(0x107n, 32)))]);
{ const d = R.encTuple([{ k: 'uint', bits: 256 }, { k: 'bytes' }], [9n, B('hello')]); t('dec', [d], [9n, B('hello'), 0n, BigInt(d.length - 4)]); t('dec', [d.subarray(0, 70)], 'REVERT'); t('dec', [R.unhex('0011')], 'REVERT'); }
t('yul', [4n, 6n], [23n, false]); t('yul', [5n, 6n], [13n, false]); t('yul', [(1n << 256n) - 1n, 2n], [3n, true]); t('yul', [1n, 0n], [(1n << 256n) - 1n, false]);
t('slot', [(5n << 64n) | 41n], (5n << 64n) | 42n);
t('tries', [1n], [3n, E, E]); t('tries', [2n], [1004n, E, E]); t('tries', [7n], [2n, E, R.cat(R.n2b(R.selector('Own(uint8)'), 4), R.n2b(9n, 32))]); t('tries', [8n], [1n, B('eight'), E]); t('tries', [9n], [5001n, E, E]);
for (const [k, ok] of [[0n, true], [1n, false], [2n, false], [3n, false], [4n, false], [5n, false], [7n, false], [8n, true]]) { let r = I.tx(0xd0n, 'lows', [k]); if (r.ret[0] !== ok) { bad++; console.log('FAIL lows', k, j(r)); } }
t('lows', [6n], [true, E, 0n]); t('lows', [9n], [true, E, 1n]);
t('child', [5n], [8n, a, true], 3n);
t('lib', [9n], [18n, 45n, 10n]); t('lib', [12n], [24n, 60n, 12n]); t('udvt', [21n], 42n);
t('evs', [B('zz')], []); { const l = W.logs.at(-1); if (!l) { bad++; console.log('FAIL no log'); } else console.log(j(l).slice(0, 200)); }
t('named', [3n], [3n, 3n]); t('named', [9n], [0n, 9n]); t('shadow', [4n], 21n); t('times', [], [86400n + 7200n + 180n + 4n + 604800n, 10n ** 18n + 2n * 10n ** 9n, 777n]);
t('order', [4n], 54n * 1000n + 103n); t('signed', [-7n, 2n], [-3n, -1n, 7n, -4n]); t('signed', [-7n, 0n], 'REVERT');
t('cond', [true, true], 21n); t('cond', [false, false], 0n); t('cond', [true, false], 10n);
t('reqErr', [4n], []); t('reqErr', [3n], 'REVERT'); t('typeinfo', [], [65535n, -(1n << 31n), R.selector('ext(uint256)') ^ R.selector('boom(uint256)'), B('Child')]); t('muldivmod', [10n, 5n, 7n], [1n, 1n]);
{ const r = I.raw(0xd0n, R.unhex('deadbeef01'), 7n); if (!r.ok || j(R.decTuple([{ k: 'uint', bits: 256 }, { k: 'uint', bits: 256 }], r.ret)) !== '["5","7"]') console.log('FAIL fallback', j(r), ++bad); }
console.log(bad ? `${bad} failures` : 'ok'); if (K.P.nerr?.length) console.log(K.P.nerr); process.exit(bad ? 1 : 0);
