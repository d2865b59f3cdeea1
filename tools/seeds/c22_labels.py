ID="c22-shared-cache"; PROP="C22"; KIT="field"
NEEDS="one process that asks for two fields of the same name and width but different primes"
BREAKS="the ARM64 part is remembered by name and width, so a second field of that name gets the first one's constants"
EDITS=[("src/buildzqfield.js","""const raw_arm64_s = await renderFile(path.join(__dirname, "fr_raw_arm64.s.ejs"), builder);""","""const armKey = name + "/" + builder.n64;
    if (!armCache[armKey]) armCache[armKey] = await renderFile(path.join(__dirname, "fr_raw_arm64.s.ejs"), builder);
    const raw_arm64_s = armCache[armKey];""",1),("src/buildzqfield.js","class ZqBuilder {","const armCache = {};\n\nclass ZqBuilder {",1)]
FILES={"demo.js":r'''
"use strict";
const path = require("path"), Module = require("module"), {execFileSync} = require("child_process");
const shim = path.join(__dirname, "kit", "node_modules");
process.env.NODE_PATH = shim; Module._initPaths();
const bigInt = require(path.join(shim, "big-integer"));
const P = ["18446744069414584321", "9223372036854775783"], parts = ["asm", "hpp", "cpp", "element_hpp", "generic_cpp", "raw_generic_cpp", "raw_arm64_s"];
(async () => {
    const build = require(path.join(process.argv[2], "src", "buildzqfield.js"));
    if (process.argv[3]) { process.stdout.write(JSON.stringify(await build(bigInt(process.argv[3]), "Fr"))); return; }
    const alone = P.map(p => JSON.parse(execFileSync("node", [__filename, process.argv[2], p], {maxBuffer: 1 << 26}).toString()));
    const both = [await build(bigInt(P[0]), "Fr"), await build(bigInt(P[1]), "Fr")];
    for (const k of [0, 1]) for (const p of parts) if (alone[k][p] !== both[k][p] || !both[k][p]) { console.log("field " + k + ": the part " + p + " depends on what was generated before"); process.exit(1); }
})().catch(e => { console.log(e); process.exit(2); });
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
node "$d/demo.js" "$(pwd)"
'''
