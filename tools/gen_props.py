import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x.strip(),"where":files[0]} for x in state.split(",")]
    if observe: a["observe_at"]=[x.strip() for x in observe.split(",")]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

BG="src/dataset/graph/impl/btree_graph.rs"; IG="src/dataset/graph/impl/indexed_btree_graph.rs"
BD="src/dataset/impl/btree_dataset.rs"; ID="src/dataset/impl/indexed_btree_dataset.rs"
DM="src/dataset/mod.rs"; GM="src/dataset/graph/mod.rs"

add("C01","A graph behaves as a set of triples under any history",
"For every sequence of insertions, removals, bulk extensions and clones, an RDF graph (plain or indexed) holds exactly the set of triples that a mathematical set fed the same sequence would hold. Every insertion and removal reports truthfully whether it changed the graph, and membership, length, emptiness and both borrowed and owned iteration (each triple once, in increasing triple order) always agree with that set. Operations on a clone never affect the original.",
["histories","inputs"],"all sequences of graph operations over any resources (including triples that repeat a resource), for the plain and the indexed graph, through inherent methods and the mutation trait",
"The unit tests insert then remove random pairwise-distinct resources once; they never repeat a resource in a triple, interleave removal with re-insertion, or check the returned flags and membership after each step.",
[BG,IG,GM],[("insert/remove reference counting",BG),("insert/remove with role indexes",IG),("owned and borrowed iteration",BG)],"slab of resources, slab of triples, sorted indexes","insert, remove, contains, len, is_empty, iteration, extend, collect, clone")
add("C02","A dataset behaves as a set of quads under any history",
"For every sequence of insertions, removals, bulk extensions and clones, an RDF dataset (plain or indexed) holds exactly the set of quads, default-graph and named-graph ones alike, that a mathematical set fed the same sequence would hold. Every insertion and removal reports truthfully whether it changed the dataset, and membership, length, emptiness and both borrowed and owned iteration (each quad once, in increasing quad order) always agree with that set. Operations on a clone never affect the original.",
["histories","inputs"],"all sequences of dataset operations over any resources (including quads that repeat a resource in any positions), for the plain and the indexed dataset",
"The unit tests use one insert phase and one remove phase over distinct random numbers; shared resources, graph names reused as terms, re-insertions and returned flags are not sampled.",
[BD,ID,DM],[("insert/remove reference counting",BD),("insert/remove with role indexes",ID)],"slab of resources, slab of quads, sorted indexes","insert, remove, contains, len, is_empty, iteration, extend, collect, clone")
add("C03","Resource, subject, predicate, object and graph listings are exact",
"At any point of any history, the listed resources of a graph or dataset are exactly those occurring in some current triple or quad, each listed once, and resource membership agrees. For indexed containers the listed subjects, predicates, objects and named graphs are exactly those used in that role by some current statement, each listed once. All the associated counts equal the number of listed elements.",
["histories","inputs"],"all reachable states of the four containers: any insert/remove/remove-graph/extract/convert history",
"No existing test looks at these listings at all; the bookkeeping must survive every interleaving of removals with statements still using the same resource in another role.",
[BG,IG,BD,ID,DM,GM],[("role sets maintenance on removal",ID),("role sets maintenance on removal",IG),("occurrence counting",BD),("counts",DM)],"subjects/predicates/objects/named-graph sets, resource slab","resources, subjects, predicates, objects, named graphs, their counts, resource membership")
add("C04","Triple pattern matching on a graph returns exactly the matches",
"For every indexed graph reached by any history and every triple pattern (given resources, free positions, and positions constrained to equal an earlier one), matching yields exactly the triples of the graph that satisfy the pattern, each exactly once. This holds whether or not the pattern's resources occur in the graph, and an exhausted matcher stays exhausted.",
["histories","inputs"],"all graph histories times all canonical triple patterns over known and unknown resources",
"There is no test of triple pattern matching; correctness depends on the sparse index left by earlier removals.",
[IG,"src/pattern/triple/canonical.rs"],[("merge-join of role indexes over sparse slab",IG),("decomposition of the pattern",'src/pattern/triple/canonical.rs')],"role indexes","pattern matching on indexed graphs")
add("C05","Quad pattern matching on a dataset returns exactly the matches",
"For every indexed dataset reached by any history and every quad pattern (each position given, free, or constrained to equal an earlier one; the graph position may also require the default graph), matching yields exactly the quads of the dataset that satisfy the pattern, each exactly once. A graph position constrained to equal another position never matches a default-graph quad.",
["histories","inputs"],"all dataset histories times all canonical quad patterns over known and unknown resources",
"There is no test of quad pattern matching; correctness depends on the sparse index left by earlier removals.",
[ID,"src/pattern/quad/canonical.rs"],[("merge-join of role indexes over sparse slab",ID),("decomposition of the pattern","src/pattern/quad/canonical.rs")],"role indexes","pattern matching on indexed datasets")
add("C06","Containment and lookup helpers agree with the content",
"For any graph or dataset reached by any history, the questions 'is this triple or quad, subject, predicate, object or named graph present', 'which objects does this subject have for this predicate' and 'which predicates, with which objects, does this subject have' are answered exactly from the current statements (of the requested graph, for datasets). Each answer is listed once and no predicate without an object is listed.",
["histories","inputs"],"all histories and all resource arguments, present or absent, in the default and in named graphs",
"These derived queries are provided by default trait methods and have no test; they combine listings and pattern matching in every state.",
[DM,GM,ID,IG],[("default lookup methods for datasets",DM),("default lookup methods for graphs",GM)],None,"contains-subject/predicate/object/named-graph, objects-of, predicates-and-objects-of")
add("C07","Graph-as-dataset and fallible views agree with the underlying data",
"A graph used where a dataset is expected behaves as a dataset whose quads are exactly its triples, all in the default graph, with no named graph, for traversal, listings, counts and every quad pattern. The error-capable (fallible) views of graphs and datasets never fail and return exactly what the plain operations return, and their triple-membership test is true exactly when some graph of the dataset contains the triple. On a source which can fail, the membership test reports a failure met before any match instead of taking it for an absence.",
["histories","inputs"],"all graph and dataset histories, all patterns and all queried triples",
"Blanket adaptors are untested and each one re-routes a query through a different code path.",
[DM,"src/dataset/fallible.rs",GM,"src/dataset/graph/fallible.rs","src/utils.rs"],[("blanket dataset implementation for graphs",DM),("fallible dataset wrappers","src/dataset/fallible.rs"),("fallible graph wrappers","src/dataset/graph/fallible.rs"),("iterator adaptors","src/utils.rs")])
add("C08","Multi-valued pattern matching returns the union of the single matches",
"For every indexed dataset and every quad pattern in which each given position carries a collection of candidate resources (possibly empty, repeated or unknown), matching yields exactly the quads whose given positions each belong to the corresponding collection and which satisfy the remaining constraints, each exactly once.",
["histories","inputs"],"all dataset histories times all multi-valued canonical quad patterns",
"There is no test; duplicates, empty and unknown candidates and sparse states all need covering.",
[ID],[("merged candidate indexes",ID)],None,"multi-pattern matching, inherent and through the trait")
add("C09","Extraction and graph removal move quads out without loss",
"Extracting the quads matching a pattern from an indexed dataset yields exactly the matching quads, each once; at every moment of the extraction, even if it is abandoned early, every original quad has either been yielded or is still in the dataset, never both, and the dataset stays fully consistent. Removing a graph returns exactly the triples of that graph and leaves all other quads; it reports absence exactly when the named graph has no quad (the default graph always exists).",
["histories","inputs"],"all dataset histories, all patterns, all abandonment points, all graph names",
"There is no test of extraction or graph removal; abandonment points and removal interleaved with reuse of slots must all be quantified over.",
[ID],[("removing iterator",ID),("graph removal",ID)],None,"extract pattern matching, remove graph")
add("C10","Indexing a plain container preserves its meaning",
"Converting a plain graph or dataset with any history into its indexed form yields a container indistinguishable, for every query and every subsequent operation, from an indexed container holding the same statements built directly.",
["histories","inputs"],"all histories before the conversion, and all operation sequences after it",
"No test converts a container that has had removals, nor keeps mutating the result.",
[IG,ID,BG,BD],[("conversion from plain graph",IG),("conversion from plain dataset",ID)])
add("C11","Container equality, ordering and hashing depend on content only",
"Two graphs (or datasets) of the same kind compare equal exactly when they contain the same statements, whatever histories produced them; their ordering is the lexicographic ordering of their sorted statements, a total order consistent with equality, and equal containers hash identically. A clone or a rebuilt copy is equal to its source, and the debug and RDF textual forms are functions of the content.",
["histories","inputs"],"all pairs of histories, including permuted insertions and insert/remove detours leading to the same content",
"Tests compare containers only incidentally; independence from insertion order and slot reuse needs quantification over histories.",
[BG,IG,BD,ID],[("Eq/Ord/Hash over sorted iteration",BG),("Eq/Ord/Hash over sorted iteration",ID)])
add("C12","Dataset isomorphism is decided correctly",
"Two datasets are reported isomorphic if and only if some bijection between their blank nodes turns one into the other, named resources and graph structure being preserved; the relation is invariant under blank node renaming and reordering, and symmetric. When a bijection is returned it really is a one-to-one correspondence covering all blank nodes of both datasets and mapping the first dataset exactly onto the second.",
["inputs"],"all pairs of datasets and graphs with blank nodes in subject, object, predicate or graph position, equal or differing by renaming or by small edits",
"The 220 isomorphism tests use one random shape (blank-labelled random graphs, and pairs of independently drawn ones); false answers need adversarial pairs (same signatures, different structure, labels or ground statements).",
["src/dataset/isomorphism.rs"],[("signature-guided backtracking search","src/dataset/isomorphism.rs")],None,"isomorphism test and bijection search, with the transparent and with a custom interpretation")
add("C13","Canonical patterns denote the same statements as their source",
"Building a canonical triple or quad pattern from a statement, from optional components, or from a pattern with variables (including repeated variables) yields a pattern that accepts exactly the statements the source describes: given positions equal, repeated variables equal, other positions free. In quad sources an absent graph means the default graph; a triple or optional triple turned into a quad pattern leaves the graph free, while a triple pattern with variables turned into a quad pattern describes the default graph. Two variable patterns that differ only by variable names give the same canonical pattern, and converting a pattern component keeps what it is: a given resource or a variable.",
["inputs"],"all source patterns over given resources and variables with any sharing of variables, and all candidate statements",
"No test covers pattern construction; the canonical form has dozens of shapes, each with its own hand-written conversion code.",
["src/pattern/quad/canonical.rs","src/pattern/triple/canonical.rs","src/pattern/resource_or_variable.rs"],[("canonicalisation of quad patterns","src/pattern/quad/canonical.rs"),("canonicalisation of triple patterns","src/pattern/triple/canonical.rs")])
add("C14","Canonical pattern accessors and transformations are faithful",
"For every canonical pattern, reading its components one by one or all at once, by reference or by value, gives the same description of the pattern, and rebuilding from it accepts the same statements. Mapping the given resources applies the function to each given resource exactly in its position and changes nothing else, and the pair-valued mapping gives the two patterns obtained by mapping with each half; splitting off the graph, or opening the pattern to any graph, keeps the remaining constraints unchanged.",
["inputs"],"all shapes of canonical triple and quad patterns and all mapping functions",
"These conversions are spelled out case by case for every shape; a wrong arm is only visible for that shape.",
["src/pattern/quad/canonical.rs","src/pattern/triple/canonical.rs"],[("component accessors","src/pattern/quad/canonical.rs"),("map and map2","src/pattern/quad/canonical.rs"),("into_triple / with_any_graph","src/pattern/quad/canonical.rs"),("component accessors","src/pattern/triple/canonical.rs")])
add("C15","Binding one position of a triple pattern refines it exactly",
"Binding the subject, predicate or object of a canonical triple pattern to a resource yields a pattern that accepts exactly the triples having that resource in that position and satisfying every constraint the original placed on the other positions (equality constraints with the bound position become equalities with the resource). The operation returns the component that was there before, and the by-value and in-place forms agree.",
["inputs"],"all canonical triple patterns, all positions, all resources",
"No test binds positions of patterns carrying equality constraints.",
["src/pattern/triple/canonical.rs"],[("set/with subject, predicate, object","src/pattern/triple/canonical.rs")])
add("C16","A pattern map finds exactly the patterns matching a triple",
"After any sequence of insertions, looking up a triple in a triple-pattern map yields exactly the values stored under patterns accepting the triple, once per such pattern; an insertion reports truthfully whether the value was not yet stored under that pattern. Merging two (sub-)maps gives the map holding the entries of both, losing and inventing none.",
["histories","inputs"],"all insertion/union histories over all canonical triple patterns and all looked-up triples",
"The map spreads patterns over seven differently-shaped nested maps; there is no test.",
["src/pattern/triple/map.rs"],[("sub-map dispatch, lookup and union","src/pattern/triple/map.rs")])
add("C17","Blank node identifiers are validated exactly by the documented grammar",
"Every way of building a blank node identifier from text (borrowed, owned, by suffix, by parsing, by deserialisation) accepts a string if and only if it matches the documented label grammar, and returns the offending input otherwise. Accepted identifiers keep their text unchanged, expose the part after the marker, and identifiers made from numbers are valid, with distinct numbers giving distinct identifiers.",
["inputs"],"all strings (all Unicode characters at every position) and all integers",
"Acceptance must be right for over a million code points in first, inner and last position; tests sample none.",
["src/blankid.rs"],[("label check","src/blankid.rs"),("constructors","src/blankid.rs")])
add("C18","RDF textual display is valid N-Quads and loses nothing",
"The RDF textual form of any term, literal, triple, quad, graph or dataset is well-formed N-Triples/N-Quads syntax, and reading it back with a conforming reader gives exactly the original value: same IRIs, blank nodes, literal values (any Unicode, quotes, backslashes, line breaks), datatypes and language tags. A format width, alignment or flag may add blanks around tokens but never alters them. A failure of the writer is reported, and nothing is written past it. Owned, borrowed and contextual forms of the same value print identically, and the plain display form is the same text, except that an IRI stands bare.",
["inputs"],"all terms, literals over arbitrary Unicode strings, triples, quads, graphs and datasets",
"Escaping must be right for every character and every nesting of types; there is no display test.",
["src/display.rs","src/literal/mod.rs","src/literal/ref.rs","src/literal/type/mod.rs","src/literal/type/ref.rs","src/term/mod.rs","src/term/local/mod.rs","src/triple.rs","src/quad.rs","src/blankid.rs"],[("string and IRI escaping","src/display.rs"),("literal suffixes","src/literal/mod.rs"),("triple and quad layout","src/quad.rs")])
add("C19","Serialised values deserialise to the same value",
"Serialising any term, literal, literal type, blank node identifier, triple, quad, graph or dataset and deserialising the result yields an equal value, whatever the characters involved, and owned and borrowed forms serialise identically. A failure of the writer, or of a resource to be serialised, is reported, and nothing is left out. Deserialisation rejects malformed identifiers and statements with an error instead of producing an invalid value or crashing.",
["inputs"],"all values, and arbitrary malformed documents",
"The untagged encodings rely on disjointness of blank node, IRI and literal syntax for every string; no test covers them.",
["src/blankid.rs","src/literal/mod.rs","src/literal/type/mod.rs","src/term/mod.rs","src/term/local/mod.rs","src/triple.rs","src/quad.rs",BG,IG,BD,ID],[("untagged term encoding","src/term/local/mod.rs"),("container sequences",BD),("blank id visitor","src/blankid.rs")])
add("C20","Owned, borrowed and copy-on-write terms are interchangeable",
"Converting any term, literal, literal type or identifier between its owned, borrowed and copy-on-write forms, in any order, preserves it exactly, and classification and component accessors agree across forms. Comparing an owned with a borrowed form gives the same equality and ordering as comparing owned forms; ordering is total and consistent with equality, and equal values hash identically, also across forms used as keys for one another.",
["inputs"],"all pairs and triples of terms and literals over arbitrary strings, IRIs, language tags and blank identifiers",
"Cross-form comparisons are separately hand-written; consistency is a relation over pairs of values that tests never enumerate.",
["src/term/mod.rs","src/term/ref.rs","src/term/cow.rs","src/term/local/mod.rs","src/term/local/ref.rs","src/term/local/cow.rs","src/literal/mod.rs","src/literal/ref.rs","src/literal/cow.rs","src/literal/type/mod.rs","src/literal/type/ref.rs","src/literal/type/cow.rs","src/id/mod.rs","src/id/ref.rs","src/id/cow.rs","src/blankid.rs"],[("cross-form Eq/Ord","src/literal/type/ref.rs"),("cross-form Eq/Ord","src/term/local/ref.rs"),("conversions","src/literal/cow.rs")])
add("C21","Triples and quads keep every component in its place",
"Every accessor, mapping, conversion, borrowing, cloning or splitting operation on triples and quads acts on exactly the component it names and leaves the others and their positions unchanged, converting between triples and quads included. Comparison, also between statements of different component types, is component-wise in subject, predicate, object, graph order, with the default graph before named graphs.",
["inputs"],"all triples and quads with distinct component values and types, all mapping functions",
"Positional mix-ups between same-typed components are invisible unless every operation is tried with distinguishable components.",
["src/triple.rs","src/quad.rs"],[("component accessors and maps","src/triple.rs"),("component accessors and maps, graph handling","src/quad.rs")])
add("C22","Generated identifiers are fresh, valid and never repeat",
"A numbered blank node generator, with any label-safe prefix and any starting offset, yields valid identifiers made of the prefix and consecutive numbers, never yields the same identifier twice, reports its prefix and progress correctly, and panics rather than repeat an identifier when its numbers run out; a prefix that cannot start a label is refused by a panic rather than yield a malformed identifier. Using it through generator or interpretation wrappers yields the same sequence.",
["histories","inputs"],"all prefixes, offsets (up to the maximum) and numbers of draws, through every wrapper",
"Uniqueness must hold for every draw count and at the numeric limit, which tests cannot sample.",
["src/term/generator/blank.rs","src/term/generator/mod.rs","src/term/generator/interpretation.rs","src/interpretation/impl/with_generator.rs"],[("numbered generator","src/term/generator/blank.rs"),("generator-backed interpretations","src/term/generator/interpretation.rs")])
add("C23","Interpretations map terms to resources and back consistently",
"Interpreting any IRI, literal, blank identifier or term, individually or through the combined entry points, gives the resource standing for exactly that term, and reverse lookup of a resource returns exactly its terms, calling it anonymous exactly when it has none. Interpretations wrapped with a generator, and the error-capable views, give the same answers as the interpretation they wrap.",
["inputs","histories"],"all terms and all interleavings of insertions and lookups, for the built-in interpretations and wrappers around an arbitrary user interpretation",
"The dispatch between IRIs, literals and blank identifiers is provided by default methods and wrappers with no test.",
["src/interpretation/mod.rs","src/interpretation/fallible.rs","src/interpretation/impl/none.rs","src/interpretation/impl/with_generator.rs","src/term/generator/interpretation.rs"],[("default dispatch methods","src/interpretation/mod.rs"),("wrappers","src/interpretation/impl/with_generator.rs"),("transparent interpretation","src/interpretation/impl/none.rs")])
add("C24","Statement macros build exactly the statements written",
"Each statement macro (one triple or quad, a list of them, or a quad pattern) accepts every combination of its documented tokens (identifiers holding an IRI, blank node, literal or term, bracketed IRIs, blank node labels, plain and typed literals, variables in patterns) in any position, under any delimiter and whatever names are in scope at the invocation, and yields exactly the terms written, in order and in their positions, with a quad's graph given exactly when a fourth component is written.",
["inputs"],"all macro invocations over the documented token forms",
"Every token form is a separate macro rule repeated in five macros; the tests expand a handful of invocations and never look at the result.",
["src/macro.rs"],[("triple macros","src/macro.rs"),("quad macros","src/macro.rs"),("quad pattern macro","src/macro.rs")])
add("C25","UUID generators yield the UUIDs of their version as valid IRIs",
"With any of the UUID generator features enabled, a UUID generator can be used wherever a term generator is expected and yields, for every version, namespace and name, a valid IRI that is the lower-case URN of a UUID of that version: the one determined by the namespace and the name for the name-based versions 3 and 5, a fresh one each time for the random version 4.",
["inputs","histories"],"all versions, namespaces and names; all sequences of draws",
"The only tests are not compiled by default, use one name, and check nothing but that the result is an IRI.",
["src/term/generator/uuid.rs","src/term/generator/mod.rs"],[("UUID generation","src/term/generator/uuid.rs"),("generator trait","src/term/generator/mod.rs")])
add("C26","Optional features combine freely and change nothing else",
"The library builds with every combination of its optional features (serde, contextual, uuid and its three generator versions), and enabling features only adds to what the library offers: every operation available without them (on terms, identifiers, containers, patterns, display, hashing, comparison, isomorphism) gives the same results whichever features are enabled, and what a feature adds behaves the same whatever other features are enabled with it.",
["inputs","configurations"],"all combinations of the optional features, all inputs and histories of operations",
"Cargo unifies features across a whole build, so a user gets features others asked for; the tests compile the crate with none of them.",
["Cargo.toml","src/lib.rs","src/display.rs","src/blankid.rs","src/term/generator/uuid.rs"],[("conditional display","src/display.rs"),("conditional (de)serialisation","src/blankid.rs"),("conditional generators","src/term/generator/uuid.rs")])
add("C27","Containers release what they hold exactly once, whatever happens",
"Every resource given to a container (the B-tree and indexed graphs and datasets, pattern maps) or cloned by one is dropped exactly once: by the operation that removes it, by its owner once returned, or with the container; never twice, never used after its drop, and never left behind. This holds for every history of insertions, removals, lookups, pattern iterations, clones, comparisons, extractions and owned iterations, complete or abandoned half-way, and a panic raised by a resource's own comparison, hashing or cloning in the middle of any operation never makes a resource be dropped twice or used after its drop. Once everything is dropped no memory stays allocated.",
["histories","inputs","fault_sequences"],"all histories of operations, all points at which the resource's own operations fail",
"A leak or double drop only shows with resources that own something, after particular histories or half-finished iterations, or when user code panics inside an operation; unit tests use plain data and never look.",
[BG,IG,BD,ID,"src/pattern/triple/map.rs"],[("resource slab and statement trees",BD),("owned iteration and extraction",ID),("pattern maps","src/pattern/triple/map.rs")])
add("C28","Values are independent of each other and of the thread they are used from",
"What an operation on a value does depends on the value and its arguments only: using other containers, pattern maps, generators, terms or texts in between, or having used them before in the same memory, changes nothing. Terms, statements, containers, patterns, pattern maps, generators and the iterators over containers can be moved to other threads and (but for a generator wrapped as an interpretation) shared by threads, where they give the same results.",
["histories","inputs","schedules"],"all sets of values, all interleavings of operations on them, on one or several threads",
"Hidden shared state (a cache, a scratch buffer, a static counter) only shows when several values are used in turns; each unit test uses its own and looks at nothing else.",
[BG,IG,BD,ID,"src/dataset/isomorphism.rs","src/term/generator/blank.rs","src/blankid.rs","src/pattern/triple/map.rs"],[("containers own their storage",ID),("generators own their counter","src/term/generator/blank.rs"),("checking of identifiers","src/blankid.rs")])
add("C29","Searches and updates compare logarithmically many resources",
"Whatever the content, its size and the order in which it was added, searching a statement or resource (found or not), inserting or removing a statement, and starting to match a pattern compare a number of resources at most proportional to the logarithm of the size of the graph or dataset; walking, listing, cloning, converting, comparing, and removing or extracting many statements at once cost at most that much for each statement concerned. Matches and listings come without further searches. Searching and inserting in a pattern map hash a bounded number of resources.",
["inputs","histories"],"all contents, sizes and insertion orders",
"The tests hold a handful of statements and never look at cost; a linear search returns the right answer.",
[BG,IG,BD,ID,"src/pattern/triple/map.rs"],[("statement and resource trees",BD),("indexes of each role",ID),("nested maps of patterns","src/pattern/triple/map.rs")])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    try: jsonschema.validate(p,s)
    except Exception as e: print(p["id"],e)
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
