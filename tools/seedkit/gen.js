// usage: node gen.js <repo> <prime> <Name> <outdir>   -- drives the repository's own generator (buildField)
"use strict";
const fs = require("fs"), path = require("path"), Module = require("module");
const shim = path.join(__dirname, "node_modules");
process.env.NODE_PATH = shim + (process.env.NODE_PATH ? ":" + process.env.NODE_PATH : "");
Module._initPaths();
const [repo, q, name, out] = process.argv.slice(2);
const build = require(path.join(repo, "src", "buildzqfield.js"));
const bigInt = require(path.join(shim, "big-integer"));
build(bigInt(q), name).then(r => {
    const b = path.join(out, name.toLowerCase());
    fs.mkdirSync(out, {recursive: true});
    fs.writeFileSync(b + ".asm", r.asm);
    fs.writeFileSync(b + ".hpp", r.hpp);
    fs.writeFileSync(b + ".cpp", r.cpp);
    fs.writeFileSync(b + "_element.hpp", r.element_hpp);
    fs.writeFileSync(b + "_generic.cpp", r.generic_cpp);
    fs.writeFileSync(b + "_raw_generic.cpp", r.raw_generic_cpp);
    fs.writeFileSync(b + "_raw_arm64.s", r.raw_arm64_s);
}).catch(e => { console.error(e); process.exit(2); });
