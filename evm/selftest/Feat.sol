// SPDX-License-Identifier: Apache 2
pragma solidity >=0.8.8 <0.9.0;

error TopErr(uint256 a, bytes32 b);
uint256 constant FILE_CONST = 2 ** 10 + 1e3;
type Price is uint128;
using {addP as +} for Price global;
function addP(Price a, Price b) pure returns (Price) { return Price.wrap(Price.unwrap(a) + Price.unwrap(b)); }
function freeMax(uint256 a, uint256 b) pure returns (uint256 m) { m = a > b ? a : b; }
struct Pt { uint64 x; uint8 y; address who; bytes data; uint16[] list; }
enum Color { Red, Green, Blue }
library Lib {
    struct Box { mapping(uint256 => Pt) pts; uint256[] keys; }
    event Put(uint256 indexed k, uint64 x);
    function put(Box storage b, uint256 k, Pt memory p) internal { b.pts[k] = p; b.keys.push(k); emit Put(k, p.x); }
    function sum(Box storage b) internal view returns (uint256 s) { for (uint256 i; i < b.keys.length; ++i) { s += b.pts[b.keys[i]].x; } }
    function twice(uint256 a) internal pure returns (uint256) { return a << 1; }
    function twice(uint64 a, uint64 k) internal pure returns (uint64) { return a * k; }
}
interface IFeat { function ext(uint256 a) external view returns (uint256, bool); function boom(uint256 k) external; }
abstract contract Base0 {
    uint256 internal ctr;
    modifier counted(uint256 by) { ctr += by; _; ctr += 100; }
    modifier positive(uint256 v) { if (v == 0) revert TopErr(v, "zero"); _; }
    function who() public virtual returns (string memory) { return "base0"; }
    function hook(uint256 a) internal virtual returns (uint256);
}
abstract contract Base1 is Base0 {
    function who() public virtual override returns (string memory) { return string(abi.encodePacked("base1>", super.who())); }
}
abstract contract Base2 is Base0 {
    function who() public virtual override returns (string memory) { return string.concat("base2>", super.who()); }
}
contract Child { uint256 public immutable v; address public owner = msg.sender; constructor(uint256 _v) payable { v = _v; } receive() external payable {} function get() external view returns (uint256) { return v + address(this).balance; } }
contract Feat is Base1, Base2 {
    using Lib for Lib.Box; using Lib for uint256;
    Lib.Box private box;
    mapping(address => mapping(uint16 => bytes32)) public nested;
    uint256[] public arr; bytes public blob; string public name = "feat"; uint8[4] public fixedArr; Pt public pt; Color public col = Color.Green;
    uint128 private lo; uint64 private mid; bool private flag; uint48 private hi; int64 private neg;
    uint256 public constant K = uint256(keccak256("ntt.x")) - 1; bytes4 constant SEL = IFeat.ext.selector;
    event Ev(address indexed a, bytes32 indexed b, uint256 c, bytes d);
    error Own(uint8 code);
    function who() public override(Base1, Base2) returns (string memory) { return string(bytes.concat(bytes("feat>"), bytes(super.who()))); }
    function hook(uint256 a) internal pure override returns (uint256) { return a * 3; }
    function mods(uint256 v) external counted(v) counted(2 * v) positive(v) returns (uint256 r) { r = ctr; return r + hook(v); }
    function ctrNow() external view returns (uint256) { return ctr; }
    function tern(uint256 a, uint256 b) external pure returns (uint256 x, uint256 y, bool z) { (x, y) = a < b ? (a, b) : (b, a); z = !(x == y) && (x & 1 == 0 || y % 2 != 0); }
    function loops(uint256 n) external pure returns (uint256 s) {
        for (uint256 i = 0; i < n; i++) { if (i % 3 == 0) continue; if (i > 20) break; s += i; }
        uint256 j = n; while (j > 0) { unchecked { j--; } if (j == 5) { break; } s += 1; }
        do { s++; if (s % 7 == 0) continue; s += 2; } while (s < 60);
    }
    function wrap(uint8 a, uint8 b) external pure returns (uint8 c, uint8 d, uint8 e, int8 f) { unchecked { c = a + b; d = a - b; e = a * b; f = int8(a) - int8(b); } }
    function checkedAdd(uint8 a, uint8 b) external pure returns (uint8) { return a + b; }
    function casts(uint256 v) external pure returns (uint8, uint64, bytes4, bytes32, address, int16, bytes1) { return (uint8(v), uint64(v), bytes4(uint32(v)), bytes32(v), address(uint160(v)), int16(uint16(v)), bytes1(uint8(v))); }
    function structs() external returns (uint256 s, uint256 len, bytes32 h) {
        uint16[] memory l = new uint16[](3); l[0] = 7; l[2] = 9;
        Pt memory p = Pt({x: 5, y: 6, who: address(0xbeef), data: hex"0102", list: l});
        Pt memory q = p; q.x += 10; // alias
        box.put(1, p); p.x = 100; box.put(4, Pt(p.x, 1, address(this), "abc", l));
        Pt storage st = box.pts[4]; st.y = 77; pt = st; delete box.pts[1].list;
        s = box.sum(); len = box.pts[1].list.length + box.pts[4].list.length + pt.y; h = keccak256(abi.encode(p.list, pt.data, pt.x));
    }
    function nestedMap(address a, uint16 c, bytes32 v) external returns (bytes32) { nested[a][c] = v; mapping(uint16 => bytes32) storage m = nested[a]; m[c + 1] = ~v; return nested[a][c + 1]; }
    function arrays() external returns (uint256, uint256, uint256) {
        delete arr; arr.push(3); arr.push() = 4; arr.push(5); arr[1] = arr[2] ** 2; arr.pop(); uint256[] memory m = arr; m[0] = 50;
        fixedArr[2] = 9; uint8[4] memory f = fixedArr; f[0] = 1; fixedArr = f; blob = "xyz"; blob.push(0x41); 
        return (arr[0] + arr[1], m[0] + arr.length, uint256(fixedArr[0]) + fixedArr[2] + uint8(blob[3]) + blob.length);
    }
    function packed() external returns (uint128, uint64, bool, uint48, int64) { lo = type(uint128).max; mid = 0x1122334455667788; flag = true; hi = 0xaabbccddeeff; neg = -5; flag = !flag; mid -= 1; hi = uint48(hi >> 8); return (lo, mid, flag, hi, neg); }
    function bits(uint256 v) external pure returns (uint256, uint256, uint256, bool) { return ((v << 8) | 0xff, (v >> 4) ^ 0x0f, v & ~uint256(0xf0), v & (1 << 3) != 0); }
    function enc(uint256 a, bytes memory b) external pure returns (bytes memory, bytes memory, bytes memory, bytes32) {
        return (abi.encodePacked(uint8(a), b, uint16(b.length), address(uint160(a))), abi.encode(a, b, "lit"), abi.encodeWithSelector(SEL, a), keccak256(bytes.concat(b, bytes32(a))));
    }
    function dec(bytes calldata d) external pure returns (uint256 a, bytes memory b, bytes4 s, uint256 n) { (a, b) = abi.decode(d, (uint256, bytes)); s = bytes4(d[0:4]); n = d[4:].length; }
    function yul(uint256 a, uint256 b) external pure returns (uint256 r, bool ov) { assembly { r := add(a, b) ov := lt(r, a) switch and(a, 1) case 0 { r := mul(r, 2) } default { r := sub(r, 1) } for { let i := 0 } lt(i, 3) { i := add(i, 1) } { r := add(r, i) } if iszero(b) { r := not(0) } } }
    function slot(uint256 v) external returns (uint256 w) { uint256 s = K; assembly { sstore(s, v) } S2 storage x; assembly { x.slot := s } x.a += 1; assembly { w := sload(s) } }
    struct S2 { uint64 a; uint64 b; }
    function ext(uint256 a) external view returns (uint256, bool) { if (a == 7) revert Own({code: 9}); require(a != 8, "eight"); assert(a != 9); return (a + arr.length, a > 1); }
    function boom(uint256 k) external { if (k == 0) return; arr.push(k); if (k == 1) revert("no"); if (k == 2) { uint256 z = 0; k / z; } if (k == 3) arr[99]; if (k == 4) { uint8 q = 255; q++; } if (k == 5) revert(); if (k == 6) arr = new uint256[](0); if (k == 7) Color(uint8(k)); }
    function tries(uint256 a) external returns (uint256 r, string memory why, bytes memory low) {
        try this.ext(a) returns (uint256 x, bool b) { r = x + (b ? 1000 : 0); } catch Error(string memory s) { why = s; r = 1; } catch Panic(uint256 c) { r = c + 5000; } catch (bytes memory d) { low = d; r = 2; }
    }
    function lows(uint256 k) external returns (bool ok, bytes memory d, uint256 n) { (ok, d) = address(this).call(abi.encodeCall(IFeat.boom, (k))); n = arr.length; }
    function del(address t) external returns (bool ok) { (ok,) = t.delegatecall(abi.encodeWithSignature("set()")); }
    function child(uint256 v) external payable returns (uint256 a, address o, bool same) { Child c = new Child{value: msg.value}(v); (bool ok,) = address(c).call{value: 0}(""); require(ok); a = c.get(); o = c.owner(); same = c.v() == v; payable(address(c)).transfer(0); }
    function lib(uint256 v) external pure returns (uint256, uint256, uint256) { return (v.twice(), Lib.twice(uint64(v), 5), freeMax({b: v, a: 10})); }
    function udvt(uint128 a) external pure returns (uint128) { Price p = Price.wrap(a); return Price.unwrap(p + p); }
    function evs(bytes memory d) external { emit Ev(msg.sender, bytes32("tag"), FILE_CONST, d); }
    function named(uint256 a) external pure returns (uint256 x, uint256 y) { x = a; if (a > 5) return (y, x); y = 3; }
    function shadow(uint256 a) external pure returns (uint256 r) { { uint256 q = a; r += q; } { uint256 q = a * 2; r += q; } uint256[3] memory t = [a, 2, 3]; for (uint256 i; i < t.length; i++) r += t[i]; }
    function times() external view returns (uint256, uint256, uint256) { return (1 days + 2 hours + 3 minutes + 4 seconds + 1 weeks, 1 ether + 2 gwei, block.timestamp); }
    function order(uint256 a) external returns (uint256) { ctr = a; uint256 r = bump() + bump() * 10; (uint256 x, , uint256 z) = three(); return r * 1000 + x * 100 + z; }
    function bump() private returns (uint256) { return ctr++; }
    function three() private pure returns (uint256, uint256, uint256) { return (1, 2, 3); }
    function signed(int256 a, int256 b) external pure returns (int256, int256, int256, int256) { return (a / b, a % b, -a, a >> 1); }
    function cond(bool a, bool b) external returns (uint256) { ctr = 0; bool r = a && inc() || b && inc(); return ctr * 10 + (r ? 1 : 0); }
    function inc() private returns (bool) { ctr += 1; return ctr > 1; }
    function reqErr(uint256 a) external pure { require(a > 3, TopErr(a, bytes32(0))); }
    function typeinfo() external pure returns (uint256, int256, bytes4, string memory) { return (type(uint16).max, type(int32).min, type(IFeat).interfaceId, type(Child).name); }
    function muldivmod(uint256 a, uint256 b, uint256 m) external pure returns (uint256, uint256) { return (addmod(a, b, m), mulmod(a, b, m)); }
    fallback(bytes calldata d) external payable returns (bytes memory) { return abi.encode(d.length, msg.value); }
}
