export * from '../../evm/src/rt.mjs';
