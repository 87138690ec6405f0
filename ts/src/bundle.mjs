// Bundles the repository's TypeScript with the stand-ins of ../stubs and loads it.
import path from 'path';
import { fileURLToPath } from 'url';
const HERE = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
export const REPO = process.env.NTT_REPO || '/repo';
const esbuild = (await import('/opt/veriftools/node/node_modules/esbuild/lib/main.js')).default;
const STUB = { '@coral-xyz/anchor': 'anchor', '@solana/web3.js': 'web3', '@solana/spl-token': 'spl-token', 'bn.js': 'bn', '@wormhole-foundation/sdk-base': 'sdk-base', '@wormhole-foundation/sdk-definitions': 'sdk-definitions', '@wormhole-foundation/sdk-solana': 'sdk-solana', '@wormhole-foundation/sdk-solana-core': 'sdk-solana-core', ethers: 'ethers', '@wormhole-foundation/sdk-evm': 'sdk-evm', '@wormhole-foundation/sdk-evm-core': 'sdk-evm-core', '@wormhole-foundation/sdk-connect': 'sdk-connect' };
export async function load(parts) {
  const exp = {
    defs: `export * as defs from '${REPO}/sdk/definitions/src/index.ts';`,
    lib: `export * as lib from '${REPO}/solana/ts/lib/index.ts'; export * as bindings from '${REPO}/solana/ts/lib/bindings.ts'; export * as utils from '${REPO}/solana/ts/lib/utils.ts';`,
    evm: `export * as evm from '${REPO}/evm/ts/src/ntt.ts'; export * as evmBindings from '${REPO}/evm/ts/src/bindings.ts';`,
    route: `export * as route from '${REPO}/sdk/route/src/index.ts';`,
    sdk: `export * as sdk from '${REPO}/solana/ts/sdk/ntt.ts';`,
  };
  const stubs = Object.values(STUB).map(s => `export * as ${s.replace(/-/g, '_')} from '${HERE}/stubs/${s}.mjs';`).join('\n');
  const r = await esbuild.build({
    stdin: { contents: parts.map(p => exp[p]).join('\n') + '\n' + stubs, resolveDir: HERE, loader: 'ts' }, bundle: true, write: false, format: 'esm', platform: 'node', target: 'es2022', logLevel: 'silent', absWorkingDir: HERE, tsconfigRaw: '{}',
    plugins: [{ name: 'ntt', setup(b) { b.onResolve({ filter: /^[^./]/ }, a => a.path in STUB ? { path: `${HERE}/stubs/${STUB[a.path]}.mjs` } : a.path === '@wormhole-foundation/sdk-definitions-ntt' ? { path: `${REPO}/sdk/definitions/src/index.ts` } : undefined); } }],
  });
  const m = await import('data:text/javascript;base64,' + Buffer.from(r.outputFiles[0].text).toString('base64'));
  await esbuild.stop(); return m;
}
