// Stand-in for @wormhole-foundation/sdk-evm: addresses, tokens and unsigned transactions.
import { Contract } from './ethers.mjs';
import { EvmAddress } from './sdk-definitions.mjs';
export { EvmAddress };
const ERC20 = ['function decimals() view returns (uint8)', 'function balanceOf(address owner) view returns (uint256)', 'function totalSupply() view returns (uint256)', 'function allowance(address owner, address spender) view returns (uint256)', 'function approve(address spender, uint256 value) returns (bool)', 'function transfer(address to, uint256 value) returns (bool)', 'function transferFrom(address from, address to, uint256 value) returns (bool)'];
export const EvmPlatform = {
  getTokenImplementation: (rpc, a) => new Contract(new EvmAddress(a).toString(), ERC20, rpc),
  getDecimals: async (_c, rpc, a) => Number(await EvmPlatform.getTokenImplementation(rpc, a).decimals()),
  chainFromRpc: async rpc => rpc.where,
};
export class EvmUnsignedTransaction { constructor(transaction, network, chain, description, parallelizable = false) { Object.assign(this, { transaction, network, chain, description, parallelizable }); } }
export const addFrom = (tx, from) => ({ ...tx, from }), addChainId = (tx, chainId) => ({ ...tx, chainId });
export const _platform = 'Evm';
