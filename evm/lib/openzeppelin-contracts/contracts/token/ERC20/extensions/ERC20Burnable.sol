// SPDX-License-Identifier: MIT
// Stand-in for the dependency of the same path (the submodule is not in this checkout); see DESIGN.md.
pragma solidity ^0.8.19;

import "../ERC20.sol";
abstract contract ERC20Burnable is ERC20 {
    function burn(uint256 amount) public virtual { _burn(msg.sender, amount); }
    function burnFrom(address account, uint256 amount) public virtual { _spendAllowance(account, msg.sender, amount); _burn(account, amount); }
}
