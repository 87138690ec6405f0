#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list below: the planted bugs and their
demonstrations. seeds.py [id...]"""
import json, os, shutil, subprocess, sys
V = "/verif"
M = "solana/programs/example-native-token-transfers/src/"
X = "solana/programs/ntt-transceiver/src/"
Q = "solana/programs/ntt-quoter/src/"
L = "solana/modules/ntt-messages/src/"
B = []


def bug(id, prop, edits, needs, breaks, demo, gov=False, evm=False, ts=False):
    B.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, gov=gov, evm=evm, ts=ts))


exec(open(f"{V}/tools/seedlist.py").read())
exec(open(f"{V}/tools/seedlist_evm.py").read())
exec(open(f"{V}/tools/seedlist_ts.py").read())

HEAD = """#![allow(dead_code, unused_imports)]
mod client;
mod kit;
mod model;
mod programs;
mod qkit;
mod setup;
mod svm;
use kit::*;
use qkit::*;

fn main() {
    programs::install();
"""


def build(b):
    d = f"{V}/seeded/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = "/tmp/seedwt"
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(wt)
    files = sorted({e[0] for e in b["edits"]})
    for side in "ab":
        for f in files:
            p = f"{wt}/{side}/{f}"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            shutil.copy(f"/repo/{f}", p)
    for f, old, new in b["edits"]:
        p = f"{wt}/b/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=wt, capture_output=True, text=True)
    open(f"{d}/patch.diff", "w").write(r.stdout)
    shutil.rmtree(wt)
    kit = f"{V}/tools/demokit"
    if b["ts"]:
        shutil.copytree(f"{V}/ts/stubs", f"{d}/stubs")
        os.makedirs(f"{d}/src")
        shutil.copy(f"{V}/ts/src/bundle.mjs", f"{d}/src/bundle.mjs")
        open(f"{d}/demo.sh", "w").write("""#!/bin/bash
# Runs the demonstration against the TypeScript sources of the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
NTT_REPO=$PWD exec node "$D/demo.mjs"
""")
        os.chmod(f"{d}/demo.sh", 0o755)
        shutil.copy(f"{V}/evm/src/rt.mjs", f"{d}/stubs/rt.mjs")
        if b["prop"] == "C47":
            shutil.copy(f"{kit}/ts/kit-evm.mjs", f"{d}/kit.mjs")
            open(f"{d}/demo.mjs", "w").write("import * as Z from './kit.mjs';\nconst { R, m, B, EvmAddress, UniversalAddress, hex, check, all, client, decode, ERC20, MGR, XC, TOK, USER } = Z;\n" + b["demo"].strip("\n") + "\nconsole.log('ok');\nprocess.exit(0);\n")
        elif b["prop"] == "C48":
            open(f"{d}/demo.mjs", "w").write("import { load } from './src/bundle.mjs';\nconst m = await load(['defs', 'route']), C = m.sdk_connect, { UniversalAddress } = m.sdk_definitions, check = (c, t) => { if (!c) { console.log('FAILED: ' + t); process.exit(1); } };\n" + b["demo"].strip("\n") + "\nconsole.log('ok');\nprocess.exit(0);\n")
        elif b["prop"] != "C44":
            shutil.copy(f"{kit}/ts/kit.mjs", f"{d}/kit.mjs")
            open(f"{d}/demo.mjs", "w").write("import * as Z from './kit.mjs';\nconst { m, B, State, message, all, check, hex, cat, le, be, utf8, keccak, pda, pk, PublicKey, Keypair, SolanaAddress, UniversalAddress, MGR, QTR, OWNER, ALICE, BOB } = Z;\n" + b["demo"].strip("\n") + "\nconsole.log('ok');\nprocess.exit(0);\n")
        else:
            open(f"{d}/demo.mjs", "w").write("import { load } from './src/bundle.mjs';\nconst m = await load(['defs']), D = m.defs, B = m.sdk_base, UA = m.sdk_definitions.UniversalAddress;\nconst hex = b => Buffer.from(b).toString('hex'), check = (c, t) => { if (!c) { console.log('FAILED: ' + t); process.exit(1); } };\nconst addr = s => new UA(new Uint8Array(32).fill(s));\n" + b["demo"].strip("\n") + "\nconsole.log('ok');\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        return
    if b["evm"]:
        os.makedirs(f"{d}/src")
        for m in ["parse", "rt", "comp", "h"]:
            shutil.copy(f"{V}/evm/src/{m}.mjs", f"{d}/src/{m}.mjs")
        shutil.copytree(f"{V}/evm/lib", f"{d}/lib")
        shutil.copytree(f"{V}/evm/harness", f"{d}/harness")
        shutil.copy(f"{kit}/evm/kit.mjs", f"{d}/kit.mjs")
        shutil.copy(f"{kit}/evm/demo.sh", f"{d}/demo.sh")
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.mjs", "w").write("import * as Z from './kit.mjs';\nconst { R, H, u, hex, D, U1, U2, SINK, EVIL, PEER, E18, I0, transfer, message, encMessage, digest, envelope, check, ok, no, manager, transceiver } = Z;\n" + b["demo"].strip("\n") + "\nconsole.log('ok');\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        return
    shutil.copytree(f"{kit}/crate", f"{d}/crate")
    if b["gov"]:
        shutil.copytree(f"{kit}/govcrate", f"{d}/crate", dirs_exist_ok=True)
    shutil.copytree(f"{kit}/wormhole-sdk", f"{d}/wormhole-sdk")
    for m in ["svm", "programs", "client", "setup", "model"]:
        shutil.copy(f"{V}/mc/src/{m}.rs", f"{d}/crate/src/{m}.rs")
    shutil.copy(f"{kit}/demo-gov.sh" if b["gov"] else f"{kit}/demo.sh", f"{d}/demo.sh")
    os.chmod(f"{d}/demo.sh", 0o755)
    body = b["demo"].strip("\n")
    open(f"{d}/crate/src/main.rs", "w").write((HEAD.replace("mod kit;", "mod govkit;\nmod kit;").replace("use kit::*;", "use govkit::*;\nuse kit::*;") if b["gov"] else HEAD) + body + "\n    println!(\"ok\");\n}\n")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)


if __name__ == "__main__":
    want = sys.argv[1:]
    for b in B:
        if not want or b["id"] in want:
            build(b)
            print(b["id"])
