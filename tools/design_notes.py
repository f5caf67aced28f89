MISSED = {
"c14-wide": "first missed; caught since the wide trees",
"c23-timescale-shared": "first missed; caught since the values with shared parts",
"c23-long-profiles": "first missed; caught since the long lists of profiles",
"c21-saved-buffer": "first missed; caught since values with shared byte slices are compared after later reads",
"c21-path-third": "first missed; caught since the deep paths",
"c21-impl-addr": "first missed; caught since the matrix of methods and receivers",
"c21-skip-depth": "first missed; caught since the deep ignored elements",
"c19-long-text": "first missed; caught since the long tokens",
"c19-intern-full": "first missed; caught since the documents with many names",
"c22-default-back": "first missed; caught since the decoders with a DefaultSpace",
"c21-template-attrs": "first missed; caught since start elements have room behind their attributes",
"c13-equal-ids": "first missed; caught since Periods are decorated with equal ids",
"c14-keep": "first missed; caught since lists are changed below the element whose parents are set",
"c23-profile-case": "first missed; caught since profiles that differ in case are added",
"c22-seq-taken": "first missed; caught since the crowds of prefixes",
"c22-eof-ns": "first missed; caught since elements are also decoded by Unmarshalers",
"c03-ns-escape": "first missed; caught since foreign attributes have namespaces with special characters",
"c28-text-children": "first missed; caught since elements with text methods have children with text",
}
NOTES = {
"C01": dict(oracle="The frozen vocabulary as an automaton that generates documents; after reading, each value must be at the field path the vocabulary names; after writing, the independent parser's tree must equal the generated tree up to the freedoms in the statement.",
 cost="Quick 4 s, thorough about 1 min. Tests use some 30 samples; here each of the 459 attributes and 260 places is exercised alone and in combination.",
 notes="Order among differently named children is free because the model keeps one list per name; attributes of xlink and xsi kind are compared by namespace."),
"C02": dict(oracle="Deep comparison of the models before and after (reflection over exported data, independent of the library) and byte comparison of first and second writing.",
 cost="Quick 3 s, thorough a few minutes. Reaches models that no reader produces: explicit zeros behind pointers, unusual strings, long lists.",
 notes="Statement narrowed to values that have a lexical form: negative durations and sub-millisecond parts do not (the text is rounded to ms by design), nor do list items with white space; indentation changes mixed content of Event by design."),
"C03": dict(oracle="refxml decides well-formedness and namespaces; vocab.json says what name and namespace each set field must have.",
 cost="Quick 5 s. The library's own reader accepts undeclared prefixes and duplicates, so tests through it cannot see these.",
 notes="A Period written alone has no namespace declaration; this is recorded in the statement as a fragment (the API says 'XML encoding of p')."),
"C04": dict(oracle="The model read from the plain presentation is the reference for all other presentations; that one is judged by C01.",
 cost="Quick 38 s, 3 million documents.",
 notes="An early version required foreign-namespace elements with vocabulary local names to be ignored; encoding/xml matches fields without namespace by local name, documented behaviour, so the claim was dropped."),
"C05": dict(oracle="refxml decides whether a damaged text is still well-formed; if it is not (apart from the listed leniencies) the reader must refuse; panics and hangs are always violations.",
 cost="Quick 9 s, 1.3 million damaged manifests.",
 notes="Leniencies shared with encoding/xml (duplicate attributes, undeclared prefixes, trailing content, instruction targets) were first reported and are now in the list of what may be read."),
"C06": dict(oracle="The delivery in one piece; for failing sources the tokens before the fault and the error's identity.",
 cost="Quick 1 s, 190,000 deliveries.", notes="The lenient (non-strict) mode invents end tags at a source error; scoped to strict mode."),
"C07": dict(oracle="The output to a destination that accepts everything is the reference; its prefix, the count and the error's identity are checked at each fault point.",
 cost="Quick 44 s, 2.4 million writes.", notes="Destinations that violate io.Writer (n < len without error) are reported as short writes by the write functions, but not claimed for xml.EscapeText, which like encoding/xml trusts the writer."),
"C08": dict(oracle="The results of each operation alone from the same start state; the happens-before race detector; absence of deadlock, livelock and panic.",
 cost="Quick about 140 s, 600,000 schedules of 13 operations in pairs and triples; thorough up to 45 min.",
 notes="The first version looked for races only within a case and so missed those that the detector had reported (once) while the length of a scenario was measured; `c08-early-put` showed that. Preempting before every statement was found to cost a hundred times more and, by the usual argument for race-free executions, to add nothing; it stays in the thorough tier."),
"C09": dict(oracle="The outcome of the same operation in a fresh process.", cost="Quick 4 s, 50,000 sequences of three operations.", notes="Continuing on the same (not released) encoder after an error is excluded, as in encoding/xml."),
"C10": dict(oracle="Exact integer arithmetic on the nanoseconds; a recogniser of xs:duration.", cost="Quick 4 s, 32 million durations.", notes=""),
"C11": dict(oracle="A recogniser and evaluator with big rationals.", cost="Quick 4 s.", notes="Spellings that the documentation does not mention but the parser tolerates (`1.S`, `.5S`, a T without components) may be accepted with the exact value or refused."),
"C12": dict(oracle="A proleptic Gregorian calendar that counts days.", cost="Quick 18 s, 38 million instants.", notes="Float results are compared up to half a unit in the last place of a float64."),
"C13": dict(oracle="An independent formulation of 5.3.2.1 of ISO/IEC 23009-1 over optional values.", cost="Quick 1 s, 600,000 configurations; complete for up to 5 Periods over the value classes.", notes="The statement now spells the library's documented rule for the duration in dynamic manifests (only between explicit start attributes)."),
"C14": dict(oracle="A reference map of containment kept beside the objects; explicit-state search with state hashing.", cost="Quick 10 s, 2.5 million operations.", notes="EmptyAdaptationSets are not covered by SetParents (documented there) and excluded."),
"C15": dict(oracle="Address reachability (no shared mutable memory) and an exhaustive change at every exported location.", cost="Quick 13 s.", notes=""),
"C16": dict(oracle="A one-pass reference expander and the presence table.", cost="Quick 1 s.", notes="Ids that themselves contain identifiers are excluded: the standard gives no order of substitution."),
"C17": dict(oracle="refxml on input and output, and the vocabulary of SCTE 35.", cost="Quick 5 s.", notes=""),
"C18": dict(oracle="refxml must return the original text; the library, too.", cost="Quick 10 s: every code point in every kind of position.", notes=""),
"C19": dict(oracle="Lockstep of the fork, encoding/xml and refxml, token by token.", cost="Quick 23 s, 3.3 million texts.", notes="The fork's differences (treatment of xmlns attributes, xmlns:p=\"\" refused, colon rules) are modelled, not excluded."),
"C20": dict(oracle="A reference automaton of the encoder (open elements, prolog state) says which token must be refused; outputs are decoded by encoding/xml and refxml and compared to the accepted tokens.", cost="Quick about 40 s.", notes=""),
"C21": dict(oracle="Go's encoding/xml on the same reflect-built struct types.", cost="Quick 37 s, 245,000 types x values.", notes="encoding/xml panics on some types where the fork reports an error; nothing is compared there. The embedded nameless XMLName difference is documented by the fork's tests."),
"C22": dict(oracle="refxml expands every name of the output; the given tree is the reference. For decoding, refxml and encoding/xml.", cost="Quick 26 s, 3.5 million trees.", notes="'Without prefix and declaration' was too strong for elements that are given no namespace: encoding/xml-style encoders inherit the default namespace; the statement says what is meant."),
"C23": dict(oracle="Reference records of the arguments; an independently built document for the output.", cost="Quick 16 s.", notes=""),
"C24": dict(oracle="Pairwise comparison of the entry points.", cost="Quick 12 s.", notes=""),
"C25": dict(oracle="Costs at two sizes: allocated bytes, CPU time of the thread, size of the result.", cost="Quick 53 s, 5,667 ways to pump an input.", notes="A user-defined Unmarshaler type with nested innerxml asks for quadratic memory by itself and is excluded."),
"C26": dict(oracle="math/big for every value; Go's strconv for the syntax and rounding of floats.", cost="Quick 22 s.", notes=""),
"C27": dict(oracle="Lockstep with encoding/xml under the same settings; the strict decoder for texts that it accepts.", cost="Quick 120 s under load, 32 million transitions.", notes="Found that an attribute without a value swallowed the byte after it, so that `<p nowrap>text</p>` lost the text (fixed). That a start tag may end with the input is a deliberate difference of the fork and modelled. Namespaces in lenient mode are compared, too, except the ambiguity of encoding/xml between a declaration and the namespace named `xmlns`."),
"C28": dict(oracle="Lockstep with encoding/xml: log of the steps, output or values, surroundings, error; refxml on the outputs.", cost="Quick 95 s under load, 20 million transitions.", notes="A declaration after flushed output is refused by the fork (fixed under C20) and accepted by encoding/xml; the reference is corrected there. Line ends and tabs in character data may be written as references or not (see C18)."),
"C30": dict(oracle="encoding/xml on the same types with the prefixes taken out of the tags: written trees are compared after expansion by refxml, values after reading the same text.", cost="Quick about 40 s.", notes="Written because mutants of the conflict rule for namespaces in xml/typeinfo.go survived all other checks: C21 leaves out namespaces and C22 writes tokens. Differences found while building it are stated as assumptions: parents on a path with a namespace (encoding/xml cannot read back its own output there, either), attributes that fields with and without namespace compete for (the library gives them to one field only), and elements without namespace below a prefixed parent (which encoding/xml leaves in its default namespace)."),
"C29": dict(oracle="The table schemaOrder, written down from the schemas and not from the code; refxml on the output.", cost="Quick 8 s.", notes="Found that SegmentTemplate, SegmentList, InitializationSet and Preselection wrote the children of the extending type before the inherited ones (fixed). The place of the 6th-edition children (RequestParam, ImportedMPD, ContentSteering, SegmentSequenceProperties) is taken from the struct comments and CHANGELOG, as no schema file is at hand."),
}
