// SPDX-License-Identifier: MIT
// Stand-in for the dependency of the same path (the submodule is not in this checkout); see DESIGN.md.
pragma solidity ^0.8.19;

abstract contract ERC1967Upgrade {
    event Upgraded(address indexed implementation);
    bytes32 internal constant _IMPLEMENTATION_SLOT = 0x360894a13ba1a3210667c828492db98dca3e2076cc3735a920a3ca505d382bbc;
    struct _AddressSlot { address value; }
    function _implSlot() private pure returns (_AddressSlot storage r) { bytes32 s = _IMPLEMENTATION_SLOT; assembly { r.slot := s } }
    function _getImplementation() internal view returns (address) { return _implSlot().value; }
    function _setImplementation(address newImplementation) private {
        require(newImplementation.code.length > 0, "ERC1967: new implementation is not a contract");
        _implSlot().value = newImplementation;
    }
    function _upgradeTo(address newImplementation) internal { _setImplementation(newImplementation); emit Upgraded(newImplementation); }
}
