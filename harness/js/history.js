// usage: node history.js <repo> < histories > trace
// A history is one JSON line {"m":"seq"|"par","r":[{"q":prime,"n":name},...]}: requests to the repository's generator made in this one
// process, each awaited before the next one (seq) or all made at once (par).  Every answer becomes an event: for every part the digest of
// its text with the field's name taken out ("" for a part that is missing, empty or does not mention the name).
"use strict";
const path = require("path"), Module = require("module"), readline = require("readline"), crypto = require("crypto");
const shim = path.join(__dirname, "node_modules");
process.env.NODE_PATH = shim + (process.env.NODE_PATH ? ":" + process.env.NODE_PATH : "");
Module._initPaths();
const bigInt = require(path.join(shim, "big-integer"));
const build = require(process.argv[2]).buildZqField;
const PARTS = ["asm", "cpp", "hpp", "element_hpp", "generic_cpp", "raw_generic_cpp", "raw_arm64_s"];
function sig(text, name) {
    if (typeof text !== "string" || !text.includes(name)) return "";
    const t = text.split(name).join("\u0001").split(name.toLowerCase()).join("\u0002").split(name.toUpperCase()).join("\u0003");
    return crypto.createHash("sha256").update(t).digest("hex").slice(0, 32);
}
async function one(r, h) {
    const e = {k: "gen", h, q: r.q, n: r.n, t: {}, extra: ""};
    try {
        const x = await build(bigInt(r.q), r.n);
        for (const p of PARTS) e.t[p] = sig(x[p], r.n);
        e.extra = Object.keys(x).filter(k => !PARTS.includes(k)).join(",");
    } catch (err) { e.k = "error"; e.msg = String(err).slice(0, 200); }
    return e;
}
(async () => {
    let h = 0;
    for await (const line of readline.createInterface({input: process.stdin})) {
        const x = JSON.parse(line);
        h++;
        let es = [];
        if (x.m === "seq") for (const r of x.r) es.push(await one(r, h));
        else es = await Promise.all(x.r.map(r => one(r, h)));
        for (const e of es) process.stdout.write(JSON.stringify(e) + "\n");
    }
})();
