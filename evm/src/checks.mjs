// The properties of the EVM contracts and the spaces in which they are decided.
import { CUSTODY, ATTEST, RATE, ADMIN, REGISTRY, DISPATCH } from './c_manager.mjs';
import { TRANSCEIVER } from './c_xcvr.mjs';
import { WIRE } from './c_wire.mjs';
import { CLIENT } from './c_client.mjs';
import { GOVERNANCE, UPGRADE } from './c_gov.mjs';
const only = (...cs) => ({ focus: t => t === 'post:event', scenarios: tier => cs.flatMap((c, i) => c.scenarios(tier).map(s => ({ ...s, name: `${'ABCDEFG'[i]}/${s.name}` }))) });
export const CHECKS = { C33: CUSTODY, C34: ATTEST, C35: RATE, C36: ADMIN, C37: TRANSCEIVER, C38: WIRE, C39: REGISTRY, C40: DISPATCH, C41: GOVERNANCE, C42: UPGRADE, C47: CLIENT, C43: only(CUSTODY, ATTEST, RATE, ADMIN, REGISTRY, DISPATCH, TRANSCEIVER) };
