// SPDX-License-Identifier: Apache 2
pragma solidity >=0.8.8 <0.9.0;
import "repo/NttManager/NttManager.sol";

/// A manager implementation whose migration fails.
contract MgrBad is NttManager {
    constructor(address t, Mode m, uint16 c, uint64 d, bool s) NttManager(t, m, c, d, s) {}
    function _migrate() internal override { revert("migration fails"); }
}
