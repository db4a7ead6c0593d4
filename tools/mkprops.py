import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=", ".join(files))])))
G="v0/internal/raml/"
PK="v0/pkg/raml/"
p("C01","Every recognised facet that is parsed is written back",
"For every RAML element the library reads (API document, library, documentation entry, type declaration of every built-in kind, XML descriptor, example), each facet the reader recognises and accepts is written back by the serialiser under the same facet name and with the value that was read (floating point numbers to the precision of the YAML library's encoder). A facet may be left out of the output only when the element holds no value for it or holds exactly the value a freshly created element starts with. `schemas` may be written as `types`, and `schema` as `type`.",
["inputs","programs"],"all documents: every element kind x every recognised facet x every accepted value",
"The tests exercise four ordered-map types only; no test parses or writes a RAML document, and about 16 type kinds x 25 facets x values cannot be sampled.",
[G+"APISpec.go",G+"Library.go",G+"Documentation.go",G+"DataType.go",G+"type-datatype-ext.go",G+"type-xml.go",G+"x-gen-type-*.go",G+"x-gen-ex-*.go"],
"reader tables (assign switches) and writer tables (marshal / MarshalYAML / MarshalRAML) over the same fields")
p("C02","Unknown facets, annotations and resources are preserved",
"Every map entry of a RAML element that is not a recognised facet is kept: annotations (`(name)`) become reachable as annotations, `/resource` entries of an API document as resources, and everything else, including facets with non-string scalar keys, as extra facets, each with its original key (a non-string scalar key may be kept as its text) and value. Serialising the element writes every annotation, resource and extra facet it holds, including those put there through the API, exactly once under its own key with its own value. An entry whose key cannot be represented (a sequence or mapping key) is reported as an error and not dropped.",
["inputs"],"all element kinds x all keys outside the recognised set (string, empty, annotation, resource, integer/boolean/null scalar, complex) x all values",
"Quantifies over keys nobody listed; no test contains an unknown facet, an annotation or a resource.",
[G+"in-components.go",G+"APISpec.go",G+"Library.go",G+"Documentation.go",G+"type-xml.go",G+"x-gen-ex-*.go"],
"fall-through branch of every assign function, and the unconditional ForEach copy loops of every writer")
p("C03","Setters, unsetters and getters agree",
"After a setter of any element is called with a value, the matching getter returns exactly that value; after the matching unset call the getter reports an empty value (empty option, nil, or an empty collection). No other getter of the element changes its answer, and every setter and unsetter returns the element it was called on.",
["inputs","histories"],"all element kinds x all Set/Unset methods x all argument values x all prior states of the element",
"About 600 accessor methods, none of them exercised by a test; sibling accessors interfere only for particular call sequences.",
[G+"APISpec.go",G+"Library.go",G+"Documentation.go",G+"type-xml.go",G+"type-datatype-ext.go",G+"x-gen-type-*.go",G+"x-gen-ex-*.go"],
"each Set/Unset method stores one field, each getter loads it")
p("C04","A parsed facet is visible through its accessor",
"When an element is read from YAML and a recognised facet has an acceptable value, the accessor for that facet (for example MinLength for minLength, Default for default, Types for types or schemas) returns that value afterwards, for collection facets with one entry per YAML entry in document order; a value or default that is an empty list is an empty list, not absent. Reading one facet leaves the values of all other facets as they were.",
["inputs"],"all element kinds x all facets x all accepted values x all prior states",
"No test parses a document; a wrong target field shows only for that facet of that type kind.",
[G+"APISpec.go",G+"Library.go",G+"type-datatype-ext.go",G+"DataType.go",G+"x-gen-type-*.go",G+"x-gen-ex-*.go","v0/internal/util/assign"],
"assign switch case -> field -> getter")
p("C05","Type declarations resolve to the right kind of type",
"A type declaration naming a built-in type, directly or through its `type` or `schema` facet, yields the element of exactly that kind; an expression containing `|` yields a union type, and any other name a custom type, with the expression kept as its type. A map declaration without type information yields an object if it has `properties`, otherwise an array if it has `items`, otherwise a string; an explicit type always wins. An empty (null) declaration is a string type, an included one an include type, and each kind reports its own kind constant and, when fresh, its own type name.",
["inputs"],"all type declarations: every name, every order of keys in the declaration map",
"Infinite set of names and key orders; no test builds a type from YAML.",
[G+"fn-sorting-hat-type.go",G+"fn-sorting-hat-property.go",G+"fn-sorting-hat-example.go",G+"x-gen-type-*.go","v0/pkg/raml/rbuild"],
"typeToKind/siftType dispatch; constructors' kind argument")
p("C06","Parsing never panics",
"Whatever YAML is given to the parser, reading an API document or a library either returns a document or returns an error; it never panics, whatever keys (including empty ones), value shapes, types or nesting the document uses.",
["inputs"],"all YAML inputs",
"All YAML documents; crash inputs are shapes nobody wrote a test for.",
["v0/pkg/raml/rparse",G+"*.go","v0/internal/util"],
"index expressions, type assertions, explicit panics and nil dereferences reachable from the parse entry points")
p("C07","Whatever can be parsed can be serialised",
"Every value the parser can store in a RAML element, and every element it can create, is something the serialiser can encode: writing a document that was parsed, at any nesting depth, never fails or panics because of the type of something stored in it. Every element kind reachable from a document therefore has a working YAML encoding, and no serialisation entry point of the public interface is left unimplemented.",
["inputs"],"all documents x all element kinds and stored value types",
"The encoder dispatches on dynamic types at run time; only the type that is missing an encoding fails, and only when present.",
[G+"Documentation.go",G+"type-xml.go",G+"DataType.go",G+"x-gen-ex-*.go",G+"enum-*.go"],
"dynamic types flowing into the AnyMap.Put values consumed by xyml.ToYamlNode")
p("C08","Collections written by the library are YAML mappings",
"RAML requires maps where the library writes collections such as types, traits, properties, facets, examples, annotations, uses or XML: every collection that the library itself creates, at construction, while parsing, or when a collection is unset, is serialised as a plain YAML mapping and not as an ordered-map sequence. The element maps themselves are written as mappings too.",
["histories","inputs"],"all collections created by the library x all histories of set/unset/parse before serialisation",
"Depends on which collection was created where; a replacement collection shows the wrong form only after a particular call sequence.",
[G+"APISpec.go",G+"Library.go",G+"annotation.go",G+"type-facet.go",G+"in-components.go",G+"x-gen-type-*.go",G+"x-gen-ex-*.go"],
"every NewXMap allocation must have SerializeOrdered(false) applied before it escapes")
p("C09","Malformed facet values are reported, never dropped",
"When a recognised facet has a value of the wrong YAML kind (for example a sequence for `title`, a string for `minLength`, a mapping for an enum entry), reading fails with an error instead of ignoring or mangling the value. An error found anywhere in a document, at any depth, is returned by the parse call, which then returns no document, and an error found while writing is returned by the write call. What turns a node into a type declaration gives a declaration or an error.",
["inputs","fault_sequences"],"all facets x all wrong-kind values x all nesting depths; all failing writers",
"Error paths: every facet x wrong kind combination, and no test provokes any of them.",
["v0/pkg/raml/rparse","v0/internal/util/assign",G+"*.go"],
"kind requirement dominating each use of a node's value; error results reaching the return")
p("C10","Numeric facets keep their exact value",
"Unsigned facets (minLength, maxLength, minItems, maxItems, minProperties, maxProperties) accept the non-negative integers in signed 64-bit range and reject negative ones; integer values are carried at full 64-bit width without narrowing or rounding. Number-typed facets accept integer as well as floating point literals.",
["inputs"],"all integer and floating point literals",
"2^64 inputs; sign and width boundaries are where conversions break.",
["v0/internal/util/assign",G+"x-gen-type-number.go",G+"x-gen-type-integer.go",G+"x-gen-ex-number.go",G+"x-gen-ex-integer.go"],
"numeric conversions between the parsed int64/float64 and the stored field")
p("C11","Ordered maps keep lookup and order in step",
"In each of the ordered map types, after any sequence of operations: a key is present in lookups exactly when it has exactly one entry in the order, both with the same value; putting a key places it at the end and replaces any earlier entry, replacing keeps its position, deleting removes exactly that key and keeps the order of the rest. Length, has, get, at, index-of and iteration all describe that one sequence, and conditional operations (put-if-not-nil, replace-if-exists) do nothing when their condition does not hold.",
["histories","inputs"],"all operation histories x all 21 map types",
"Four of the 21 types are tested, with fixed one- or two-entry histories.",
[PK+"*Map.go"],
"implXMap{ordered,index}: Put/Delete/ReplaceIfExists/IndexOf")
p("C12","Map serialisation writes every entry once, in order",
"Serialising any ordered map writes every entry exactly once, under its own key and with its own value, in map order for YAML (both the mapping and the ordered form) and for ordered JSON; JSON objects contain every entry (keys by their textual form; of several keys with one text the last entry counts). Failure to encode one entry fails the serialisation; entries are never silently skipped. A new map is serialised in its ordered form unless told otherwise.",
["inputs","histories"],"all map contents, both serialisation modes, YAML and JSON, all 21 map types",
"Only single-entry maps of four types are serialised in tests.",
[PK+"*Map.go"],
"MarshalJSON / ToYAML loops over ordered entries")
p("C13","Reading and serialising do not modify the document",
"Getters and serialisation leave the element they are called on, and everything reachable from it, unchanged. Serialising the same document twice therefore gives the same output, and concurrent readers of one document do not interfere.",
["histories","schedules"],"all elements x all getters and serialisers x all interleavings of readers",
"A write inside a reader is visible only on the second call or under a race.",
[G+"*.go",PK+"*Map.go"],
"effect sets of getters and serialisers")
p("C14","Documents and elements do not share mutable state",
"Elements created separately by the builders or by the parser never share mutable state: changing one element, or one entry of a collection, never changes another. Parsing or building concurrently in several goroutines is therefore safe.",
["histories","schedules"],"all pairs of created elements, all histories, all interleavings",
"Aliasing shows only when two elements are alive and one of them changes.",
[G+"*.go","v0/pkg/raml/rbuild","v0/pkg/raml/rparse"],
"no mutable package-level state; every constructor and every iteration allocates its own containers")
p("C15","Setting a collection to nil leaves an empty collection",
"Passing nil to a setter of a collection (map) is the same as unsetting it: the element afterwards holds an empty, usable collection. Collection getters never return nil, in any state reachable through the public API, and optional object values that are absent are skipped by the serialiser and never dereferenced.",
["histories"],"all element kinds x all collection setters x all histories",
"Needs nil passed to each of about 150 setters; none is tested.",
[G+"APISpec.go",G+"Library.go",G+"x-gen-type-*.go",G+"x-gen-ex-*.go"],
"nil branch in SetX, container allocation in constructors and UnsetX")
p("C16","Output is deterministic",
"Serialising the same document or map always gives the same bytes: output, and the in-memory result of parsing, never depend on randomised iteration order, time, randomness or addresses.",
["inputs","schedules"],"all documents, all runs",
"Go randomises map iteration per run; a sample run cannot show the absence of dependence.",
[PK+"*Map.go",G+"*.go"],
"range over Go maps / clock / random sources reachable from serialisation and parsing")
p("C17","Written documents start with their RAML header",
"Writing a library emits the line `#%RAML 1.0 Library` first and writing an API document emits `#%RAML 1.0` first, each exactly once and before any content, on every write that succeeds. Overlay, extension and fragment headers are defined as their RAML 1.0 texts.",
["inputs"],"all documents and all writers",
"No test writes a document.",
[G+"APISpec.go",G+"Library.go","v0/pkg/raml/rmeta","v0/pkg/raml/rmod"],
"first write to the io.Writer in WriteRAML")
p("C18","Fresh elements report the RAML defaults",
"A newly created element (by the builders or as the starting point for parsing) has the RAML 1.0 default for every facet that has one: required is true, strict is true, additionalProperties is true, uniqueItems is false, minimum lengths and counts are zero and the array and file maxima are 2147483647; all other facets are unset or empty. Elements obtained from the public builders behave the same as those the parser starts from, and a library read from an empty document is a fresh library.",
["programs","inputs"],"all element kinds x all facets",
"No test constructs any element other than four map types.",
[G+"x-gen-type-*.go",G+"x-gen-ex-*.go",G+"type-datatype-ext.go","v0/pkg/raml/rmeta","v0/pkg/raml/rbuild"],
"constructors and rmeta default constants")
p("C19","Short forms are used only when nothing is lost",
"An example is written in its short form (bare value) only when it has nothing but a value, and a type in its short form (bare type name) only when the type name is its only facet; in every other state the expanded map form is written. A bare scalar or sequence read as an example becomes its value, and a bare string read as a type becomes its type.",
["inputs","histories"],"all element states",
"2^n combinations of set facets per element.",
[G+"x-gen-ex-*.go",G+"DataType.go"],
"expand() / MarshalRAML's short flag and its use in ToYAML")
p("C20","Reading and serialising terminate",
"Reading a document, every accessor, mutator and collection operation, and serialising return after finitely many steps for every input: each loop moves towards a bound that it does not move away, recursion over a document or over an element only goes down to its parts and never round through an alias, and no serialiser or printer hands its receiver back to a function that calls it again. A document with an anchor that contains its own alias is an error or is read as it stands; it is never followed round.",
["inputs","histories"],"all documents including those with aliases that lead back to a containing anchor, all element states, all public operations",
"Divergence needs a special shape of input (an anchor containing its own alias, an empty key, a particular length); a test that samples inputs does not meet it, and no number of terminating runs shows the absence of it.",
[G+"*.go",PK+"*.go","v0/pkg/raml/rparse","v0/internal/util"],
"loops and call-graph cycles reachable from the public API")
p("N01","A whole document survives parse-write-parse textually unchanged",
"Parsing a document, writing it and parsing the result again gives an equal document, including scalar styles, comments, anchors and aliases.",
["inputs"],"all documents","Equality of two runtime documents.",[G+"*.go"],"whole pipeline including yaml.v3 emitter")
p("N02","Checked-in generated code equals the generator's output",
"Running the code generator over its definitions reproduces the generated sources of the repository.",
["programs"],"all generated files","Needs the generator to run.",["v0/tools/gen","v0/gen"],"templates")
p("N03","Documents that are not valid RAML 1.0 are rejected",
"Documents violating RAML 1.0 constraints between facets (minLength above maxLength, unknown type references, enum values outside the type) are rejected.",
["inputs"],"all documents","The library does not implement validation.",[G+"fn-sorting-hat-*.go"],"validation points marked in the source as not implemented")
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
