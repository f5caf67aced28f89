ENUM = "explicit-state model checking: exhaustive bounded enumeration executed on the real code against an independent reference model"
FAULT = "explicit-state model checking: exhaustive exploration of all fault points and deliveries of the bounded histories on the real code"
SCHED = "stateless model checking: preemption-bounded exploration of all schedules of the instrumented implementation (CHESS style) with happens-before race detection"
CHECKS = {
"C01": (ENUM, "All documents of the vocabulary automaton within the bounds; every trace replayed on the implementation."),
"C02": (ENUM, "All models within the bounds: places x fields x values, pairs, saturation; every one written, read, compared and written again."),
"C03": (ENUM, "All models within the bounds x options; every output judged by an independent namespace-aware XML parser."),
"C04": (ENUM, "All documents within the bounds x presentation settings; compared with the plain presentation."),
"C05": (ENUM, "All truncations, all one-byte and tag-level damages, all short token strings; judged by an independent XML parser."),
"C06": (FAULT, "All split points and deliveries of the base documents, all fault points of the source."),
"C07": (FAULT, "All fault points of the destination: error, short write, panic at each byte and each call."),
"C08": (SCHED, "All schedules within the preemption bounds of the scenarios, on the instrumented real code under a controlled scheduler, with a happens-before race detector; results compared with those alone."),
"C09": (ENUM, "All sequences of encoding operations up to the depth bound, compared with fresh processes."),
"C10": (ENUM, "All values of the enumerated duration lattice; rational-arithmetic reference."),
"C11": (ENUM, "All strings over the duration alphabet up to the length bound plus the boundary lattice; rational-arithmetic reference recogniser."),
"C12": (ENUM, "All days of the supported years x boundary seconds and fractions; integer calendar reference."),
"C13": (ENUM, "All presence/absence vectors for up to the bounded number of Periods; reference rules."),
"C14": (ENUM, "All sequences of reading, cloning, appending and setting parents up to the depth bound; reference parent map."),
"C15": (ENUM, "All models within the bounds x all single changes at every exported location, on both sides."),
"C16": (ENUM, "All presence/absence combinations and template words; reference resolver."),
"C17": (ENUM, "All operation sequences and models of the SCTE 35 elements within the bounds; independent namespace-aware parser."),
"C18": (ENUM, "All legal texts over the alphabet up to the length bound and all code points, in every text position; independent parser."),
"C19": (ENUM, "All texts over the byte and piece alphabets up to the length bound, in every context; lockstep with encoding/xml and an independent parser."),
"C23": (ENUM, "All sequences of constructor and builder calls up to the depth bound; reference records."),
"C25": (ENUM, "All pumped words up to the length bound in every context, all elements, attributes and texts of the vocabulary with long values, all nestings, each at two sizes; costs compared."),
"C24": (ENUM, "All documents and models within the bounds through every entry point, compared pairwise."),
"C26": (ENUM, "All values of the boundary lattices and all digit strings up to the length bound in every numeric field; arbitrary-precision reference."),
"C20": (ENUM, "All sequences of encoder operations up to the depth bound against a reference encoder automaton; outputs judged by encoding/xml and an independent parser."),
"C22": (ENUM, "All trees of elements within the bounds over names, prefixes, declarations and attributes, written in three ways and decoded in four; independent namespace-aware parser and encoding/xml."),
"C21": (ENUM, "All struct types built from the field types and tags within the bounds, all values and texts; lockstep with encoding/xml."),
"C27": (ENUM, "All texts over the markup pieces up to the length bound, alone and in every lenient context, under four settings; lockstep with encoding/xml."),
"C28": (ENUM, "All scripts of calls by custom methods up to the depth bound in every place and document; lockstep with encoding/xml, outputs judged by an independent parser."),
"C30": (ENUM, "All struct types of one to three fields with namespaces in their tags within the bounds, all their values and all texts of a family; lockstep with encoding/xml, trees compared by an independent parser."),
"C29": (ENUM, "All models and all documents with pairs (thorough triples) of children in every order within the bounds; every written element compared with the sequence of the schema."),
}
