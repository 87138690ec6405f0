// Regenerates golden/storage.json: the storage of the contracts as deployed from the pinned commit. Run by hand only.
import fs from 'fs';
import path from 'path';
import { Kit, HERE } from './h.mjs';
import { goldenBed, goldenX, goldenGov, dump } from './c_gov.mjs';
const K = new Kit(), b = goldenBed(K), x = goldenX(K), g = goldenGov(K);
fs.writeFileSync(path.join(HERE, 'golden/storage.json'), JSON.stringify({ manager: dump(b.W, 0x3000n), transceiver: dump(x.W, 0x5000n), governance: dump(g.W, g.addr) }, null, 1) + '\n');
