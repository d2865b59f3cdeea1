// usage: node sig.js <name> <file>...   -- the digests history.js would give these texts
"use strict";
const fs = require("fs"), crypto = require("crypto");
const [name, ...fs_] = process.argv.slice(2);
for (const f of fs_) {
    const text = fs.readFileSync(f, "utf8");
    const t = text.split(name).join("\u0001").split(name.toLowerCase()).join("\u0002").split(name.toUpperCase()).join("\u0003");
    process.stdout.write((text.includes(name) ? crypto.createHash("sha256").update(t).digest("hex").slice(0, 32) : "") + "\n");
}
