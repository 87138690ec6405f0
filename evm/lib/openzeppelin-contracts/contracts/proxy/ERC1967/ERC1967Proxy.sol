// SPDX-License-Identifier: MIT
// Stand-in for the dependency of the same path (the submodule is not in this checkout); see DESIGN.md.
pragma solidity ^0.8.19;

import "./ERC1967Upgrade.sol";
abstract contract ERC1967Proxy is ERC1967Upgrade {}
