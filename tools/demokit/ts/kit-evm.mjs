// An EVM deployment for demonstrations: the contracts' answers are written here, the client is the repository's.
import { load } from './src/bundle.mjs';
import * as R from './stubs/rt.mjs';
export { R };
export const m = await load(['defs', 'evm']), B = m.sdk_base, { EvmAddress, UniversalAddress } = m.sdk_definitions;
export const hex = b => Buffer.from(b).toString('hex'), check = (c, t) => { if (!c) { console.log('FAILED: ' + t); process.exit(1); } };
export const addr = n => '0x' + n.toString(16).padStart(2, '0').repeat(20);
export const MGR = addr(0x31), XC = addr(0x32), TOK = addr(0x33), CORE = addr(0x34), USER = addr(0x41);
export const all = async g => { const l = []; for await (const u of g) l.push(u.transaction); return l; };
// answers: function name -> (arguments) => [results]
export function client(answers, version = '1.1.0') {
  const erc20 = new m.ethers.Interface(['function decimals() view returns (uint8)', 'function allowance(address owner, address spender) view returns (uint256)']);
  let c; const provider = { where: ['Mainnet', 'Ethereum'], call: async tx => {
    const fns = [...c.manager.interface.fns, ...c.xcvrs[0].transceiver.interface.fns, ...erc20.fns], sel = tx.data.slice(2, 10).toLowerCase(), f = fns.find(x => R.hex(x.sel) === sel);
    if (!f || !(f.name in answers)) throw Object.assign(new Error(`call exception (${f?.name ?? sel})`), { code: 'CALL_EXCEPTION' });
    return '0x' + R.hex(R.encTuple(f.outs, answers[f.name](...R.decTuple(f.ins, R.unhex('0x' + tx.data.slice(10))))));
  } };
  return (c = new m.evm.EvmNtt('Mainnet', 'Ethereum', provider, { coreBridge: CORE, ntt: { token: TOK, manager: MGR, transceiver: { wormhole: XC } } }, version));
}
export const decode = (i, tx) => { const sel = tx.data.slice(2, 10).toLowerCase(), f = i.fns.find(x => R.hex(x.sel) === sel); return f && { name: f.name, args: R.decTuple(f.ins, R.unhex('0x' + tx.data.slice(10))) }; };
export const ERC20 = new m.ethers.Interface(['function approve(address spender, uint256 amount) returns (bool)']);
