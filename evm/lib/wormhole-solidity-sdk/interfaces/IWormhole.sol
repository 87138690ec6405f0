// SPDX-License-Identifier: MIT
// Stand-in for the dependency of the same path (the submodule is not in this checkout); see DESIGN.md.
pragma solidity ^0.8.19;

interface IWormhole {
    struct GuardianSet { address[] keys; uint32 expirationTime; }
    struct Signature { bytes32 r; bytes32 s; uint8 v; uint8 guardianIndex; }
    struct VM {
        uint8 version; uint32 timestamp; uint32 nonce; uint16 emitterChainId; bytes32 emitterAddress; uint64 sequence; uint8 consistencyLevel; bytes payload;
        uint32 guardianSetIndex; Signature[] signatures; bytes32 hash;
    }
    function publishMessage(uint32 nonce, bytes memory payload, uint8 consistencyLevel) external payable returns (uint64 sequence);
    function parseAndVerifyVM(bytes calldata encodedVM) external view returns (VM memory vm, bool valid, string memory reason);
    function chainId() external view returns (uint16);
    function governanceChainId() external view returns (uint16);
    function governanceContract() external view returns (bytes32);
    function messageFee() external view returns (uint256);
}
