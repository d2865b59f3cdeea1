------------------------------- MODULE GenFiles -------------------------------
(* The seven texts of a generated field and the files the command puts them in. *)
EXTENDS Naturals, Sequences, TLC
Parts == <<"asm", "cpp", "hpp", "element_hpp", "generic_cpp", "raw_generic_cpp", "raw_arm64_s">>
PartSet == {Parts[k] : k \in 1..Len(Parts)}

\* the file a part goes to: the name in lower case and the part's suffix, unless the option of that very part names another
Suffix == [asm |-> ".asm", cpp |-> ".cpp", hpp |-> ".hpp", element_hpp |-> "_element.hpp", generic_cpp |-> "_generic.cpp",
           raw_generic_cpp |-> "_raw_generic.cpp", raw_arm64_s |-> "_raw_arm64.s"]
OptOf == [asm |-> "oa", cpp |-> "oc", hpp |-> "oh"]
FileOf(part, lower, opts) == IF part \in DOMAIN OptOf /\ OptOf[part] \in DOMAIN opts THEN opts[OptOf[part]] ELSE lower \o Suffix[part]
FilesOf(lower, opts) == [f \in {FileOf(p, lower, opts) : p \in PartSet} |-> {p \in PartSet : FileOf(p, lower, opts) = f}]
=============================================================================
