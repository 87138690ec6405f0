// Stand-in for @wormhole-foundation/sdk-evm-core: nothing of it is used directly.
export {};
