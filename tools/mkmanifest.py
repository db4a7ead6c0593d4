#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: one entry per claimed property.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = "Static, nothing of /repo runs. The analyser loads /repo's current source, builds its SSA form and interprets it abstractly, one analysis per element kind and operation; every path is covered because joins are merged under boolean guards and loops are summarised by a generic iteration. "
trust = " Trusted: the Go type checker and go/ssa, the stated models of the external calls (yaml.v3, trivial-option/slice, fmt, strconv, errors), no unsafe or reflection in the code analysed. An obligation whose analysis met a construct outside the model is reported as undecided in the evidence, not as a violation."
C = [
("C01","guarded value-flow analysis (gated SSA): reader's store to writer's emission, per facet","For every element kind and recognised facet: the value of the facet's field reaches the written mapping under the facet's key under every state in which the field holds something other than its initial value."),
("C02","key-class dataflow through readers plus write-set analysis of the serialisers","Entries of each key class (annotation, resource, other, scalar, sequence/mapping key) flow to the right container unchanged, and each container is written completely, each entry once."),
("C03","interprocedural frame analysis of setters and unsetters over a field-sensitive heap","For every mutator from an arbitrary state: post-state of its accessor, frame of every other accessor, result identity."),
("C04","key- and kind-specialised abstract interpretation of the readers","For every element kind, facet and accepted YAML shape: the accessor evaluated on the state after reading returns the converted value; every other field is unchanged."),
("C05","abstract interpretation of the resolvers over a finite key-order and type-name alphabet","Every order of the deciding keys and each built-in name, union marker, other name, null and include; element type, kind constant and stored expression decided."),
("C06","whole-parser panic-obligation analysis (nil, index, type assertion, explicit panic) with guard discharge","Every instruction that can panic, reachable from reading any document, has an unsatisfiable failure guard."),
("C07","effect analysis of stored values against the encoder's accepted types; panic obligations of the writers","Every value stored in an element or container is of a type the encoder has a case for; every public serialisation method returns."),
("C08","typestate (ordered flag) of every allocated container","At every end of every constructor, mutator, reader and writer, each container allocated is flagged as a mapping."),
("C09","error-propagation dataflow with kind-specialised reads","For every facet, every unacceptable YAML kind leads to a non-nil error; every error created on the way to the parse or write call is returned."),
("C10","numeric conversion analysis (width, sign, rounding) of the value flow","No narrowing or rounding conversion and the exact sign guard between the literal and the stored value."),
("C11","relational abstract interpretation of the map implementations (order slice and index)","For each of the ordered map types each operation preserves the simulation with one sequence of unique keys and computes the specified result."),
("C12","loop summarisation of the map serialisers","Each serialiser appends every entry exactly once, in order, with its own key and value; each encoding error is returned."),
("C13","effect (purity) analysis of getters and serialisers","No store, no container mutation and no element mutation on anything that existed before the call."),
("C14","allocation freshness and global-state escape analysis","Constructors and readers store only values allocated in the call or coming from the document; no package-level variable is written or leaks mutable state."),
("C15","inductive nil-ness analysis of container fields; panic obligations of accessors and writers","Container fields are non-nil initially and after each operation."),
("C16","nondeterminism source-to-sink analysis","Map ranges, time, randomness, goroutines and address formatting are found; only order-insensitive map copies are allowed."),
("C17","typestate of the output stream in the write entry points","Header write first and once, body after it, errors returned; header constants compared with RAML 1.0."),
("C18","abstract evaluation of constructors against the RAML default table","Each accessor of a fresh element evaluates to its default."),
("C19","guarded value-flow of the short forms","The short form's guard implies that all other facets are absent; the short forms are read back into value and type."),
("C20","SSA loop ranking and guarded value-flow of recursive calls","Every loop has a measure that moves to a fixed bound on every way round; recursive calls are on parts of the argument or under changed memory; no alias is followed round and no serialiser hands its receiver back."),
]
claimed = set(open(os.path.join(here,"tools","claimed")).read().split())
m = {"version":1,"setup_cmd":"bash /verif/run.sh","checks":[],"not_applicable":[]}
for i,t,n in C:
    if i in claimed:
        m["checks"].append({"property":i,"quick_cmd":"bash /verif/run.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash /verif/run.sh "+i,
            "evidence_file":"evidence/%s.json"%i,"technique":"static analysis: "+t,"level":"other","level_note":base+n+trust})
    else:
        m["not_applicable"].append({"property":i,"reason":"Check not built yet."})
m["not_applicable"] += [
 {"property":"N01","reason":"Relates the bytes of two runs through the yaml.v3 emitter and scanner; scalar styles, comments and anchors are decided inside that dependency at run time. The parts that live in this repository are C01, C02, C04, C12."},
 {"property":"N02","reason":"Compares the output of running the template generator with checked-in files: deciding it means executing the generator, which is not static analysis."},
 {"property":"N03","reason":"The library does not implement validation between facets and does not claim to; there is no code for the property to be anchored to."},
]
m["notes"]="All checks are one analyser (checker/), started by run.sh, which builds it and reads /repo's working tree on every run. REPO=<dir> analyses another tree."
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
