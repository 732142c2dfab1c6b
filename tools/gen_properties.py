#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand; the result is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "OWL RL equality and property rules: exact deductive closure",
  "Expanding any RDF graph with the OWL 2 RL semantics adds every triple that follows from the W3C OWL 2 RL equality rules (eq-ref, eq-sym, eq-trans, eq-rep-s/p/o) and property rules (prp-dom, prp-rng, prp-fp, prp-ifp, prp-symp, prp-trp, prp-spo1, prp-spo2, prp-eqp1/2, prp-inv1/2, prp-key), applied until nothing new follows, for property chains and keys of any length and for any aliasing of the resources involved. It adds nothing that does not follow from the input by the OWL RL rules (apart from error-report nodes).",
  ["inputs"], "every RDF graph (well-formed lists), every length of chain, key list and derivation, every aliasing of the variables of a rule, IRIs, blank nodes and literals in every position",
  "The tests run single rules on one or two hand-written graphs each; completeness and soundness quantify over all graphs, over interacting rules and unbounded derivation depth.",
  ["owlrl/OWLRL.py", "owlrl/Closure.py"],
  [("OWLRL_Semantics._equality", "owlrl/OWLRL.py"), ("OWLRL_Semantics._properties and _property_chain", "owlrl/OWLRL.py"), ("Core.closure cycles until nothing is added", "owlrl/Closure.py")],
  [("graph + added_triples", "triples known so far, and those collected in the current cycle", "owlrl/Closure.py")],
  ["DeductiveClosure(OWLRL_Semantics).expand(g): the set of triples of g afterwards"])

prop("C02", "OWL RL class and restriction rules: exact deductive closure",
  "Expanding any RDF graph with the OWL 2 RL semantics adds every triple that follows from the W3C OWL 2 RL class rules (cls-thing, cls-nothing1, cls-int1/2, cls-uni, cls-svf1/2, cls-avf, cls-hv1/2, cls-maxc2, cls-maxqc3/4, cls-oo), applied until nothing new follows, for lists of any length and any combination of restrictions. A class expression or restriction never gives a type or an equality that the rules do not justify.",
  ["inputs"], "every graph using intersection, union, enumeration, some/all/hasValue and (qualified) max-cardinality restrictions, lists of any length, any aliasing",
  "The tests use one two-element list or one restriction each; list length, interplay of restrictions and derivation depth are unbounded.",
  ["owlrl/OWLRL.py", "owlrl/Closure.py"], [("OWLRL_Semantics._classes", "owlrl/OWLRL.py"), ("OWLRL_Semantics._list", "owlrl/OWLRL.py")],
  (), ["DeductiveClosure(OWLRL_Semantics).expand(g)"])

prop("C03", "OWL RL class axioms and schema vocabulary: exact deductive closure",
  "Expanding any RDF graph with the OWL 2 RL semantics adds every triple that follows from the class axiom rules (cax-sco, cax-eqc1/2) and the schema vocabulary rules (scm-cls, scm-sco, scm-eqc1/2, scm-op, scm-dp, scm-spo, scm-eqp1/2, scm-dom1/2, scm-rng1/2, scm-hv, scm-svf1/2, scm-avf1/2, scm-int, scm-uni), including the reflexive conclusions that cycles in the hierarchies give for undeclared classes and properties. No hierarchy, domain, range or equivalence statement is added that the rules do not justify.",
  ["inputs"], "every graph of class/property hierarchies of any shape and depth (chains, diamonds, cycles, self-loops), restrictions related through sub-property and sub-class, declared or undeclared",
  "The tests check a handful of two-step hierarchies; cycles, diamonds, depth and interaction with restrictions are not sampled.",
  ["owlrl/OWLRL.py", "owlrl/Closure.py"], [("OWLRL_Semantics._class_axioms", "owlrl/OWLRL.py"), ("OWLRL_Semantics._schema_vocabulary", "owlrl/OWLRL.py")],
  (), ["DeductiveClosure(OWLRL_Semantics).expand(g)"])

prop("C04", "RDFS closure: exact fixpoint including equal-valued literals",
  "Expanding any RDF graph with the RDFS semantics yields exactly the input plus what the RDFS entailment rules rdf1, rdfs2, rdfs3, rdfs4a/b and rdfs5 to rdfs13 give, applied until nothing new follows, so that the result is closed under these rules. If a triple of the input has a literal as object, the result also has that triple with every other literal object of the input that denotes the same value in the same value space (as far as RDFLib or the improved conversions know the datatype), and with no literal that denotes a different value.",
  ["inputs"], "every RDF graph; hierarchies of any depth; literals of any supported datatype in any position",
  "The RDFS tests check three small graphs; the closure quantifies over all graphs and all derivation depths, and value equality over all pairs of literals.",
  ["owlrl/RDFSClosure.py", "owlrl/Closure.py"], [("RDFS_Semantics.rules", "owlrl/RDFSClosure.py"), ("RDFS_Semantics.one_time_rules / _literals_same_as", "owlrl/RDFSClosure.py")],
  (), ["DeductiveClosure(RDFS_Semantics).expand(g)"])

prop("C05", "Combined and extended closures are joint fixpoints",
  "Expanding with the combined RDFS + OWL 2 RL semantics yields the joint fixpoint of both rule sets together with the triples that bind the two vocabularies (owl:Thing/rdfs:Resource, owl:Class/rdfs:Class, owl:DataRange/rdfs:Datatype equivalences). The extended semantics yields that fixpoint plus the self-restriction rules (owl:hasSelf both ways), with the RDFS rules applied if and only if RDFS closure was requested. It also supports owl:rational: xsd:decimal and what is derived from it is included in owl:rational, and a literal 'integer/positive integer without plus sign' is typed with it while any other fraction is reported as ill-typed and not typed.",
  ["inputs", "configurations"], "every RDF graph, both extension settings of the RDFS option, all interleavings of RDFS- and OWL-derived premises",
  "Tests exercise the combined class once and the extension for reference data only; that consequences of one rule set feed the other to a joint fixpoint is a statement about all graphs.",
  ["owlrl/CombinedClosure.py", "owlrl/OWLRLExtras.py", "owlrl/OWLRL.py", "owlrl/RDFSClosure.py"],
  [("RDFS_OWLRL_Semantics.rules/one_time_rules/full_binding_triples", "owlrl/CombinedClosure.py"), ("OWLRL_Extension.rules", "owlrl/OWLRLExtras.py")],
  (), ["DeductiveClosure(RDFS_OWLRL_Semantics|OWLRL_Extension, rdfs_closure=...).expand(g)"])

prop("C06", "Inconsistencies are reported exactly, naming the offenders",
  "After an OWL 2 RL expansion the graph contains, for every violated inconsistency rule instance (eq-diff1/2/3, prp-irp, prp-asyp, prp-pdw, prp-adp, prp-npa1/2, cls-nothing2, cls-com, cls-maxc1, cls-maxqc1/2, cax-dw, cax-adc) of the fully expanded graph, an error node whose message identifies the kind of violation and the resources involved, whichever members of a list of any length conflict and however late in the derivation the conflict appears. A graph without a violation gets no error node, and every message is justified by a violation (a list member may be named by a resource it is owl:sameAs).",
  ["inputs"], "every graph, every pair of positions in lists of any length, violations present initially or derived at any depth",
  "Tests check presence of an error on a few pairs only; absence of false reports and detection for every list position and every derivation depth quantify over all inputs.",
  ["owlrl/OWLRL.py", "owlrl/Closure.py"], [("add_error calls in the rule methods", "owlrl/OWLRL.py"), ("error nodes written after the last cycle", "owlrl/Closure.py")],
  [("error_messages", "messages recorded during the run", "owlrl/Closure.py")], ["nodes of type err:ErrorMessage and their err:error literals in the result"])

prop("C07", "Datatype reasoning on literals, typed resources and sameAs",
  "In an OWL 2 RL expansion every literal of the input whose datatype is supported gets its datatype and all the datatypes that one is derived from as types, every supported datatype is declared a datatype, resources that the input types with a datatype, or that are sameAs such a literal or resource, get the super-datatypes too, and disjointness is stated between used datatypes of different primitive value spaces and never between datatypes that share values. Literals are never given a datatype that does not include their value, non-datatypes are never declared as datatypes, and a literal is reported as ill-typed if and only if its lexical form is not in the lexical space of its supported datatype. The same holds for the datatypes and super-datatypes that a subclass adds with add_new_datatype, during its own expansions only.",
  ["inputs"], "every supported datatype, every literal (valid or not) in any graph, every typed resource and sameAs link",
  "Tests use half a dozen literals of three datatypes; the statement quantifies over all datatypes of the hierarchy and all literals.",
  ["owlrl/OWLRL.py", "owlrl/XsdDatatypes.py", "owlrl/AxiomaticTriples.py"], [("OWLRL_Semantics._one_time_rules_datatypes", "owlrl/OWLRL.py"), ("datatype lists and subsumptions", "owlrl/XsdDatatypes.py"), ("RDFS_OWLRL_Semantics.add_new_datatype", "owlrl/CombinedClosure.py"), ("OWLRLDatatypes disjointness", "owlrl/AxiomaticTriples.py")],
  (), ["types of literals and resources, rdfs:Datatype and owl:disjointWith triples, error nodes after expansion"])

prop("C08", "Improved datatype conversions accept exactly the XSD lexical spaces",
  "The improved lexical-to-value conversions accept a string for a supported datatype if and only if it is in that datatype's lexical space (integer family with its bounds, decimal, float, double, boolean, hexBinary, base64Binary, date, time, dateTime, dateTimeStamp, gYear family, language, Name, NCName, NMTOKEN, token, normalizedString, rdf:PlainLiteral) and reject every other string with a ValueError. For accepted numeric, boolean and date/time strings the value is the denoted one: bounds are inclusive, sign, fraction (to microseconds) and the timezone offset of times and date-times are preserved; years outside 1 to 9999 and magnitudes outside the floating point ranges are out of scope.",
  ["inputs"], "every string over the alphabet of each lexical space (all strings up to a bounded length, boundary values and mutations of valid forms)",
  "The test-suite touches two or three lexical forms; a lexical space is an infinite language and the bounds and offsets have corner cases on every side.",
  ["owlrl/DatatypeHandling.py"], [("AltXSDToPYTHON conversion functions", "owlrl/DatatypeHandling.py")], (), ["AltXSDToPYTHON[datatype](string): value or ValueError"])

prop("C09", "Facet-restricted datatypes classify values exactly",
  "With the extended semantics, a literal whose datatype is (or is derived from) the built-in base type of a user-defined restricted datatype is typed with the restricted datatype if and only if its value satisfies all of the facets (min/max inclusive/exclusive, length, minLength, maxLength, pattern, langRange) given for it. An allValuesFrom restriction to such a datatype reports an error for exactly the literal values that violate the facets, and malformed datatype definitions do not disturb the other datatypes.",
  ["inputs"], "every combination of facets with every applicable base datatype and all values below, on and above each boundary, in graphs with any number of restricted datatypes",
  "The tests have no facet test at all; boundaries, combinations and base types multiply beyond any hand-written sample.",
  ["owlrl/RestrictedDatatype.py", "owlrl/OWLRLExtras.py"], [("RestrictedDatatype.checkValue and check_* methods", "owlrl/RestrictedDatatype.py"), ("extract_faceted_datatypes", "owlrl/RestrictedDatatype.py"), ("OWLRL_Extension._subsume_restricted_datatypes / restriction_typing_check", "owlrl/OWLRLExtras.py")],
  (), ["rdf:type triples of literals and error nodes after expand with OWLRL_Extension"])

prop("C10", "Axiom options add exactly the documented axiomatic triples",
  "For every semantics the axiomatic-triples option and the datatype-axioms option each add exactly the corresponding axiomatic triples before reasoning, independently of one another, so that the result equals the closure of the input together with those axioms, and without an option none of them is added. In the RDFS-based semantics the container membership axioms are added for every rdf:_n property used as a predicate in the graph, for any n and any gaps, and for no others.",
  ["inputs", "configurations"], "all four option combinations for every semantics, every set of container membership properties used in the graph",
  "Tests never vary the options systematically and use no container membership properties.",
  ["owlrl/Closure.py", "owlrl/AxiomaticTriples.py", "owlrl/RDFSClosure.py", "owlrl/OWLRL.py", "owlrl/CombinedClosure.py", "owlrl/OWLRLExtras.py"],
  [("add_axioms / add_d_axioms", "owlrl/*.py"), ("IMaxNum scan", "owlrl/Closure.py"), ("axiomatic triple tables", "owlrl/AxiomaticTriples.py")],
  (), ["result of expand under axiomatic_triples / datatype_axioms"])

prop("C11", "Expansion is deterministic, idempotent, monotone and name-independent",
  "The triples produced by an expansion depend only on the set of input triples and the options, not on the order or grouping in which triples were added or on hashing, and renaming the user's resources and blank nodes renames the result and nothing else. Expanding an expanded graph again adds no triple (other than repeated error nodes, and what follows from datatype definitions that the first expansion derived), and adding triples to the input never removes a conclusion.",
  ["inputs", "schedules", "histories"], "all insertion orders, hash seeds, renamings, repeated expansions and input extensions of every graph with well-formed lists",
  "Tests run one order with one hash seed and never expand twice; these are relations between runs over all inputs.",
  ["owlrl/Closure.py", "owlrl/OWLRL.py", "owlrl/RDFSClosure.py", "owlrl/OWLRLExtras.py"], [("collect-then-add cycles until fixpoint", "owlrl/Closure.py")],
  (), ["result sets of several expansions of related graphs"])

prop("C12", "Input triples survive; generalised predicates do not",
  "Every triple of the input is still present, unchanged, after an in-place expansion with any non-trimming semantics, including its literals' lexical forms, datatypes and language tags, except triples that have a blank node as predicate. After an OWL RL based expansion no triple of the result has a blank node or a literal as predicate, while blank-node predicates still take part in reasoning.",
  ["inputs"], "every graph including ones whose property resources are blank nodes or literals reached through sameAs, inverseOf or subPropertyOf, and literals with unusual lexical forms",
  "No test compares the whole input with the output nor builds blank-node predicates.",
  ["owlrl/OWLRL.py", "owlrl/Closure.py", "owlrl/CombinedClosure.py"], [("OWLRL_Semantics.post_process, bnodes collected in cycle 1", "owlrl/OWLRL.py"), ("Core.store_triple literal-predicate filter", "owlrl/Closure.py")],
  [("bnodes", "blank nodes seen in the first cycle", "owlrl/OWLRL.py")], ["triples of the graph after expand"])

prop("C13", "Datasets and destinations: same conclusions, right place, sources untouched",
  "Expanding a dataset reasons over the union of all its graphs; new triples go exactly to the requested destination graph (given as a graph or by name) or the default graph, no named source graph is changed, and source plus destination together hold the same closure as in-place expansion of the merged graph. A destination graph that shares the store of a plain source graph receives the complete set of conclusions; a destination that does not share the store, or a named destination for a plain graph, is rejected with a ValueError and nothing is changed.",
  ["inputs", "configurations"], "every distribution of triples over named graphs, each kind of destination, each semantics",
  "Three tests use one triple in one graph; distribution of rule premises over graphs and completeness in the destination are not sampled.",
  ["owlrl/Closure.py", "owlrl/__init__.py", "owlrl/OWLRL.py"], [("destination selection in Core.__init__", "owlrl/Closure.py"), ("store_triple membership test on source and destination", "owlrl/Closure.py"), ("writes through self.destination", "owlrl/OWLRL.py")],
  (), ["contents of every graph of the dataset after expand(graph, destination)"])

prop("C14", "The result of an expansion does not depend on earlier expansions",
  "Within one process the outcome of expanding a graph (triples, error reports or exception) is the same whatever graphs were expanded before, with whatever semantics, options, failures and user-defined datatypes. User-defined restricted datatypes and extension datatypes of one graph never influence another graph's expansion.",
  ["histories"], "all sequences of expansions over the semantics x options x failing and non-failing graphs",
  "Each test expands one graph; leakage shows only for particular sequences of calls in one process.",
  ["owlrl/__init__.py", "owlrl/OWLRLExtras.py", "owlrl/CombinedClosure.py", "owlrl/XsdDatatypes.py", "owlrl/DatatypeHandling.py"],
  [("add_new_datatype registering into module-level tables", "owlrl/CombinedClosure.py"), ("DeductiveClosure.expand set-up and clean-up", "owlrl/__init__.py")],
  [("OWL_RL_Datatypes, OWL_Datatype_Subsumptions, AltXSDToPYTHON", "module-level registries", "owlrl/XsdDatatypes.py, owlrl/DatatypeHandling.py")], ["result of an expansion after a history vs in a fresh process"])

prop("C15", "The literal conversion table is switched and restored as documented",
  "RDFLib's literal conversion behaviour after an expansion, whether it succeeds or raises, is what it was before, and during an expansion the improved conversions are active if and only if they were requested for that expansion or switched on globally. The global switch turns the improved conversions on for everything that follows and the opposite switch restores RDFLib's original conversions completely.",
  ["histories", "fault_sequences"], "all sequences of global switches, expansions with either setting, with every semantics, succeeding or failing at any phase",
  "The tests never inspect the conversion table after expansion or failure.",
  ["owlrl/__init__.py", "owlrl/DatatypeHandling.py", "owlrl/CombinedClosure.py"], [("use_Alt_lexical_conversions / use_RDFLib_lexical_conversions", "owlrl/DatatypeHandling.py"), ("DeductiveClosure.expand, use_*_conversions", "owlrl/__init__.py")],
  [("rdflib.term._toPythonMapping", "RDFLib's process-wide conversion table", "rdflib"), ("improved_datatype_generic", "global switch", "owlrl/__init__.py")], ["Literal(...).value before/during/after expand"])

prop("C16", "Expansion terminates without exception on every RDF graph",
  "Expanding any RDF graph with any semantics and any options terminates and raises no exception, including graphs with cyclic or broken lists, non-literal or non-numeric cardinalities, ill-typed literals, vocabulary terms used in unexpected places and malformed datatype definitions. What does not depend on the malformed part is still inferred.",
  ["inputs", "configurations"], "every RDF graph, well-formed or not, every semantics and option combination",
  "The tests contain no malformed graph at all.",
  ["owlrl/Closure.py", "owlrl/OWLRL.py", "owlrl/DatatypeHandling.py", "owlrl/RestrictedDatatype.py", "owlrl/OWLRLExtras.py"], [("cycle loop bounded by the finite term set", "owlrl/Closure.py"), ("_list, cardinality handling", "owlrl/OWLRL.py")],
  (), ["expand returns within a bound"])

prop("C17", "owl:imports are followed transitively, once each, and removed",
  "Interpreting imports merges every document reachable from the graph through owl:imports, whatever the shape of the import graph (chains, diamonds, cycles, self-imports, repeated or literal references), loads each document at most once, and terminates. Afterwards the graph holds no import statement and otherwise exactly the union of its own triples and those of the reachable documents; conversion interprets imports if and only if OWL closure is requested.",
  ["inputs", "configurations"], "every finite import graph, references as IRI or literal, every input format option",
  "No test uses imports; reachability and termination quantify over all import graphs.",
  ["owlrl/__init__.py"], [("interpret_owl_imports", "owlrl/__init__.py"), ("convert_graph", "owlrl/__init__.py")], (), ["graph after interpret_owl_imports; documents fetched"])

prop("C18", "Conversion options select the documented semantics and formats",
  "For every combination of conversion options (OWL, RDFS, extras, trimming, axioms, datatype axioms, in boolean or string form) the graph conversion entry point and the command line apply exactly the documented semantics to the union of all sources and the text input, and with no entailment selected they only convert. The output in each documented format parses back to exactly the RDF-expressible triples of that closure, inputs are read in the documented format for the option or file suffix, and an explicitly supplied semantics class overrides the options. (RDFa input and blank nodes in JSON-LD output depend on what RDFLib offers.)",
  ["inputs", "configurations"], "all option combinations, all input formats and suffixes, all output formats, several sources and text",
  "No test calls the conversion entry point or the script.",
  ["owlrl/__init__.py", "scripts/owlrl"], [("convert_graph, __parse_input, return_closure_class", "owlrl/__init__.py"), ("option parser", "scripts/owlrl")], (), ["text returned by convert_graph / printed by the script"])

prop("C19", "Trimming removes exactly the documented triples",
  "The trimming semantics produces exactly the extended closure minus the documented trivial triples: reflexive sameAs/subClassOf/subPropertyOf/equivalentClass, statements that something is a resource or a subclass of the top class, subclass statements about the bottom class, declarations and disjointness of datatypes that type nothing, annotation-property axioms and the listed axioms on top and bottom classes. Every other conclusion, and every error node, of the extended closure is kept, also when results go to a separate destination.",
  ["inputs", "configurations"], "every graph, options and destination; every triple of the extended closure",
  "No test uses trimming.",
  ["owlrl/OWLRLExtras.py"], [("OWLRL_Extension_Trimming.post_process", "owlrl/OWLRLExtras.py")], (), ["difference between the results of the extended and the trimming semantics"])

prop("C20", "Extension classes: hook order, snapshot cycles and fixpoint contract",
  "A user-defined semantics derived from the core (or from any supplied semantics) has its hooks called in the order pre-processing, axioms, datatype axioms (each only if requested), one-time rules, numbered rule cycles starting at 1, post-processing, then error emission. In each cycle the rules see every triple of the graph as it was at the start of the cycle, stored triples appear only when the cycle ends, a cycle that added a triple is followed by another, the last cycle stores nothing new, and triples with literal predicates are never stored; each distinct error message added by any hook yields exactly one error node.",
  ["programs", "inputs", "histories"], "every subclass behaviour: which hooks are overridden, what they store and report and in which cycle, on every input graph",
  "One test subclasses the core trivially; ordering and visibility hold over all user programs.",
  ["owlrl/Closure.py"], [("Core.closure, store_triple, flush_stored_triples, add_error", "owlrl/Closure.py")],
  [("added_triples", "collected in this phase", "owlrl/Closure.py"), ("error_messages", "messages so far", "owlrl/Closure.py")], ["sequence of hook calls with the graph contents visible to each"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
