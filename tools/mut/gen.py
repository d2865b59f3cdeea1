Z="src/buildzqfield.js"; A="src/armbuilder.js"; C="src/fr.cpp.ejs"; H="src/fr.hpp.ejs"; E="src/fr_element.hpp.ejs"; S="src/fr.asm.ejs"; RG="src/fr_raw_generic.cpp.ejs"; G="src/fr_generic.cpp.ejs"
M=[
("22a","C22",Z,"            self.lastTmp++;\n            label = label || \"tmp\";\n            return label+\"_\"+self.lastTmp;","            ZqBuilder.lastTmp = (ZqBuilder.lastTmp || 0) + 1;\n            label = label || \"tmp\";\n            return label+\"_\"+ZqBuilder.lastTmp;"),
("22b","C22",C,"static mpz_t q;","mpz_t q;"),
("22c","C22",Z,"const generic_cpp = await","const cache = buildField.cache || (buildField.cache = {});\n    const generic_cpp = cache[builder.n64 + name] = cache[builder.n64 + name] || await"),
("22d","C22",C,"static bool initialized = false;","bool initialized = false;"),
("22e","C22",H,"#ifndef __<%=name.toUpperCase()%>_H\n#define __<%=name.toUpperCase()%>_H","#ifndef __FFIASM_N<%=n64%>_H\n#define __FFIASM_N<%=n64%>_H"),
("22f","C22",E,"#ifndef <%=name.toUpperCase()%>_ELEMENT_HPP\n#define <%=name.toUpperCase()%>_ELEMENT_HPP","#ifndef FFIASM_ELEMENT_HPP\n#define FFIASM_ELEMENT_HPP"),
("22g","C22",Z,'const hElementFileName = argv.name.toLowerCase() + "_element.hpp";','const hElementFileName = (argv.oh) ? argv.oh.replace(".hpp", "_element.hpp") : argv.name.toLowerCase() + "_element.hpp";'),
("22h","C22",Z,"const asmFileName =  (argv.oa) ? argv.oa : argv.name.toLowerCase()","const asmFileName =  (argv.oa) ? argv.oa : argv.name"),
("22i","C22",S,"        global <%=name%>_R3\n","        global <%=name%>_R3\n        global np\n"),
("22j","C22",A,"return this.space + \"_\" + this.name + \"_\" + label_name;","return this.name + \"_\" + label_name + (GenBase.n = (GenBase.n || 0) + 1, label_name === \"out\" ? GenBase.n : \"\");"),
("22k","C22",RG,"static uint64_t     lboMask ","uint64_t     lboMask "),
("22l","C22",G,"static <%=name%>RawElement half","<%=name%>RawElement half"),
("22m","C22",G,"static inline int has_add32_overflow","int has_add32_overflow"),
("22n","C22",Z,"        this.canOptimizeConsensys = ","        this.canOptimizeConsensys = ZqBuilder.last === this.n64 ? true : ZqBuilder.last === (ZqBuilder.last = this.n64) || "),
("22o","C22",H,"#ifndef __<%=name.toUpperCase()%>_H","#define N64 <%=n64%>\nstruct FieldWords { unsigned long v[<%=n64%>]; };\n#ifndef __<%=name.toUpperCase()%>_H"),
("22p","C22",S,"        global <%=name%>_R3\n","        global Fr_R3\n"),
("22q","C22",A,"return this.space + \"_\" + this.name + \"_\" + label_name;","return this.name + \"_\" + label_name;",(A,"this.add_line(`${label}:`);","this.add_line(`.global ${label}`); this.add_line(`${label}:`);")),
]
