B="src/montgomerybuilder.js"; Z="src/buildzqfield.js"; A="src/armbuilder.js"
def sub(f, old, new, after=None): return (f, old, new)
M=[
# C07: x86 Montgomery
("07a","C07",B,'            c.op("mov", t+n64, 3);\n            c.op("adcx", t+n64, 3);\n            c.op("adox", t+n64, t+n64+1);','            c.op("mov", t+n64, 3);\n            c.op("adox", t+n64, t+n64+1);'),
("07b","C07",B,'            c.op("adox", t+n64, t+n64+1);\n        }\n\n        c.code.push("");','            if (i < n64-1) c.op("adox", t+n64, t+n64+1);\n        }\n\n        c.code.push("");'),
("07c","C07",B,'        c.op("test", t+n64, t+n64);\n        c.code.push(`jnz ${fn}_sq`);','        c.op("test", t+n64, 3);\n        c.code.push(`jnz ${fn}_sq`);'),
("07d","C07",B,'for (let i=n64-1; i>=0; i--) {\n        c.op("cmp"','for (let i=n64-1; i>=(n64>4?1:0); i--) {\n        c.op("cmp"'),
("07e","C07",B,'        c.op("cmp", t+i, `[q + ${i*8}]`);\n        c.code.push(`    jc ${fn}_done`);','        c.op("cmp", t+i, `[q + ${i*8}]`);\n        c.code.push(i ? `    jc ${fn}_done` : `    jbe ${fn}_done`);'),
("07f","C07",B,'                c.op("adcx", t+n64, 3);\n                c.op("adcx", t+n64+1, 3);\n                c.op("adox", t+n64+1, 3);','                c.op("adcx", t+n64, 3);\n                c.op("adox", t+n64+1, 3);'),
("07g","C07",B,'                c.op("adcx", t+n64, 3);\n                c.op("adcx", t+n64+1, 3);\n                c.op("adox", t+n64+1, 3);','                c.op("adcx", t+n64, 3);\n                c.op("adcx", t+n64+1, 3);'),
("07h","C07",Z,"leq( bigInt.one.shiftLeft(64).minus(1).shiftRight(1).minus(1) )","leq( bigInt.one.shiftLeft(64).minus(1).shiftRight(1) )"),
("07i","C07",Z,'while (shex.length <16) shex = "0" + shex;','while (shex.length <15) shex = "0" + shex;'),
("07j","C07",Z,'const mask = bigInt("FFFFFFFFFFFFFFFF", 16);','const mask = bigInt("FFFFFFFFFFFFFFFF", 16); if (this.n64>8) return this.constantElement.call({n64:8}, v) + ",0x0".repeat(this.n64-8);'),
("07k","C07",B,'function buildMul1(fn, q) {\n    return templateMontgomery(fn, q, function mulUpperLoop(c, params, i) {\n        const {t, n64, canOptimizeConsensys} = params;\n        if (i==0) {\n            c.code.push("; FirstLoop");\n            c.op("mov","rdx", "rcx");\n            c.op("mulx", 0, t, "[rsi]");\n            for (let j=1; j<n64; j++) {\n                c.op("mulx", j%2, t+j, `[rsi +${j*8}]`);\n                c.op("adcx", t+j, (j-1)%2);\n            }','function buildMul1(fn, q) {\n    return templateMontgomery(fn, q, function mulUpperLoop(c, params, i) {\n        const {t, n64, canOptimizeConsensys} = params;\n        if (i==0) {\n            c.code.push("; FirstLoop");\n            c.op("mov","rdx", "rcx");\n            c.op("mulx", 0, t, "[rsi]");\n            for (let j=1; j<n64; j++) {\n                c.op("mulx", j%2, t+j, `[rsi +${j*8}]`);\n                c.op(j>6 ? "adox" : "adcx", t+j, (j-1)%2);\n            }'),
("07l","C07",B,'            if (!canOptimizeConsensys) {\n                c.op("mov", t+n64+1, 3);\n            } else {\n                c.op("mov", t+n64, 3);\n            }\n        }\n    });\n}\n\n\n// const','            if (canOptimizeConsensys) c.op("mov", t+n64, 3);\n        }\n    });\n}\n\n\n// const'),
# C09: ARM
("09a","C09",A,'this.op("cinc", "x2", "x2", "ne");','if (i < 8) this.op("cinc", "x2", "x2", "ne");'),
("09b","C09",A,'            this.op("orr", "x17", this.accum, r);\n\n            this.accum = "x17";\n        }\n\n        this.op_empty();','            this.op("orr", "x17", (i & 1) ? this.accum : "x17", r);\n\n            if (i < 2) this.accum = "x17";\n        }\n\n        this.op_empty();'),
("09c","C09",A,'            this.op("ldr",    this.a1[i], this.getMemWord(0, i));\n            this.op("ldr",    this.b1[i], this.getMemWord(1, i));\n            this.op("eor", r, this.a1[i], this.b1[i]);','            this.op("ldr",    this.a1[i], this.getMemWord(0, i));\n            this.op("ldr",    this.b1[i], this.getMemWord(1, i));\n            this.op(this.width > 8 ? "and" : "eor", r, this.a1[i], this.b1[i]);'),
("09d","C09",A,'return (this.width >= 8);','return (this.width > 8);'),
("09e","C09",A,'super(width, space, "rawSwap", 2, 0);\n\n        this.a1 = cyclicCopy(this.assignRegs(8), width);','super(width, space, "rawSwap", 2, 0);\n\n        this.a1 = cyclicCopy(this.assignRegs(7), width);'),
("09f","C09",A,'this.genStoreVarWord(this.a1, i, 0);\n            if (i % 2) this.op_empty();\n        }\n        this.op("ret");\n    }\n}\n\nclass Gen_rawCopyS2L','if (i < 10) this.genStoreVarWord(this.a1, i, 0);\n            if (i % 2) this.op_empty();\n        }\n        this.op("ret");\n    }\n}\n\nclass Gen_rawCopyS2L'),
("09g","C09",A,'        if (this.width > 1) {\n            this.op("mov", "x2", "-1");','        if (this.width > 2) {\n            this.op("mov", "x2", "-1");'),
("09h","C09",A,'if (i > 0)\n                this.genStoreVarWord(this.r1, j++, 0);\n            if (i % 2) this.op_empty();\n        }\n        this.genStoreVarWord(this.r1, j, 0);\n        if (this.width % 2) this.op_empty();\n    }\n}\n\nclass Gen_rawCmp','if (i > 0)\n                this.genStoreVarWord(this.r1, j++, 0);\n            if (i % 2) this.op_empty();\n        }\n        if (this.width % 2) this.genStoreVarWord(this.r1, j, 0);\n        if (this.width % 2) this.op_empty();\n    }\n}\n\nclass Gen_rawCmp'),
("09i","C09",A,'if (reg >= 19) {','if (reg >= 20) {'),
("09j","C09",A,'if (reg !== 18) {','if (reg !== 17) {'),
("09k","C09",A,'        if (size % 2) {\n            this.op("ldr", saved[size-1], "[sp], #16");\n           size--;\n        }','        if (size % 2) {\n            this.op("ldr", saved[size-1], size > 3 ? "[sp], #8" : "[sp], #16");\n           size--;\n        }'),
("09l","C09",A,'for (let i =size; i > 0; i -= 2) {','for (let i =size; i > (size > 8 ? 2 : 0); i -= 2) {'),
("09m","C09",A,'        this.op("cbnz", "x2", label);\n        this.op("b.hs",       label);','        this.op("b.hs",       label);'),
("09n","C09",A,'        this.op("cbnz", "x2", label);\n        this.op("b.hs",       label);','        this.op("cbnz", "x2", label);\n        this.op("b.hi",       label);'),
("09o","C09",A,'this.op("csel", r[i], a[i], b[i], "hs");','this.op("csel", r[i], a[i], b[i], (i % 8 === 7) ? "hi" : "hs");'),
("09p","C09",A,'        for (; i < this.width - 1; i += 2) {\n            let r = this.getNextWorkReg();','        for (; i < this.width - 1; i += 2) {\n            let r = i === 4 ? new Reg(2) : this.getNextWorkReg();'),
("09q","C09",A,'            this.op("ldr", this.r1[i], this.getMemWord(1, i));\n            this.op("orr", "x2", "x2", this.r1[i]);','            this.op("ldr", this.r1[i], this.getMemWord(1, i));\n            if (i < 6) this.op("orr", "x2", "x2", this.r1[i]);'),
("09r","C09",A,'this.op("orr",  "x3", "x3", "x2");','this.op("and",  "x3", "x3", "x2");'),
("09s","C09",A,'        this.op("cset", "x3", "cc");\n        this.op("orr",','        this.op("cset", "x3", "ls");\n        this.op("orr",'),
("09t","C09",A,'            this.op("lsl",  c0,      this.r1[i+1], "x4");\n            this.op("orr",  this.r1[i], this.r1[i],    c0, "lsl #1");','            this.op("lsl",  c0,      this.r1[i+1], "x4");\n            this.op("orr",  this.r1[i], this.r1[i],    c0, wordShift > 6 ? "lsl #0" : "lsl #1");'),
("09u","C09",A,'for (; j >= 0; j--) {\n            this.op("mov", this.r1[j], "xzr");','for (; j > (wordShift > 2 ? 0 : -1); j--) {\n            this.op("mov", this.r1[j], "xzr");'),
("09v","C09",A,'            this.op("adcs", this.r1[i], "xzr", "x8");\n            this.op("adc",  "x8", "xzr", "xzr");\n            this.op_empty();\n        } else {\n            this.op("adc", this.r1[i], "xzr", "xzr");','            this.op("adc", this.r1[i], "xzr", "x8");\n            this.op("mov",  "x8", "xzr");\n            this.op_empty();\n        } else {\n            this.op("adc", this.r1[i], "xzr", "xzr");'),
("09w","C09",A,'            if (w) {\n                this.op("adc",  "x8", "x8", "xzr");\n            } else {\n                this.op("adc",  "x8", "xzr", "xzr");\n            }','            if (w) {\n                this.op("adc",  "x8", "x8", "xzr");\n            } else {\n                this.op("mov",  "x8", "xzr");\n            }'),
("09x","C09",A,'            if (w < this.width - 1) {\n                this.op("adc", np0, "xzr", "xzr");\n            }','            if (w < this.width - 1) {\n                this.op("mov", np0, "xzr");\n            }'),
("09y","C09",A,'        if (!this.canOptimizeConsensys) {\n            if (w) {\n                this.op("adc", carry, carry, "xzr");','        if (!this.canOptimizeConsensys) {\n            if (w > 1) {\n                this.op("adc", carry, carry, "xzr");'),
("09z","C09",A,'                this.op("adcs", this.r1[i], "xzr", carry);\n                this.op("adc", carry, "xzr", "xzr");','                this.op("adc", this.r1[i], "xzr", carry);\n                this.op("mov", carry, "xzr");'),
("09A","C09",A,'            this.op("cinc", "x8", "x8", "hs");\n            this.op("cmp", "x8", "1");','            this.op("cset", "x8", "hs");\n            this.op("cmp", "x8", "1");'),
("09B","C09",A,'            this.q2 = cyclicCopy(new RegVar(1,2), this.width);\n            this.b2 = this.assignRegs(this.width);\n        }\n        this.generate();\n    }\n\n    generate() {\n        this.pushRegs();\n\n        if (this.mulAB)','            this.q2 = cyclicCopy(new RegVar(1,0), this.width);\n            this.b2 = this.assignRegs(this.width);\n        }\n        this.generate();\n    }\n\n    generate() {\n        this.pushRegs();\n\n        if (this.mulAB)'),
("09C","C09",A,'this.op("tbnz", "x2", "6", this.makeLabel("word_shift_1"));\n        }\n        this.op_empty();\n    }\n\n    genJumpTable() {\n        this.op_label(this.makeLabel("word_shift"));\n\n        for (let i = 0; i < this.width; i++) {\n            this.op(".quad", this.makeWordLabel(i));\n        }\n    }\n\n    genShift() {\n        let i = 0;\n        for (; i < this.width; i++)','this.op("tbnz", "x2", "5", this.makeLabel("word_shift_1"));\n        }\n        this.op_empty();\n    }\n\n    genJumpTable() {\n        this.op_label(this.makeLabel("word_shift"));\n\n        for (let i = 0; i < this.width; i++) {\n            this.op(".quad", this.makeWordLabel(i));\n        }\n    }\n\n    genShift() {\n        let i = 0;\n        for (; i < this.width; i++)'),
("09D","C09",A,'        let zero = cyclicCopy(new RegVar(31), this.width);\n        this.genStoreVar(zero, 0);','        let zero = cyclicCopy(new RegVar(31), this.width);\n        if (this.width < 9) this.genStoreVar(zero, 0); else this.genStoreVar(this.r1, 0);'),
("09E","C09",A,'class Gen_rawSubRegular extends GenBase {\n    constructor(width, space, name) {\n        super(width, space, name, 4, 0);\n\n        this.a1 = cyclicCopy(this.assignRegs(4)','class Gen_rawSubRegular extends GenBase {\n    constructor(width, space, name) {\n        super(width, space, name, 4, 0);\n\n        this.a1 = cyclicCopy(this.assignRegs(3)'),
("09F","C09",A,'this.releaseRegs(this.workRegs);\n        this.releaseRegs(new RegVar(2, 3, 4, 5));','this.releaseRegs(this.workRegs);\n        this.releaseRegs(new RegVar(2, 3, 4, 5, 0));'),
]
