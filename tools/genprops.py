#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

RD = ["mpd.ReadFromString, MPDFromBytes, ReadFromFile"]
WR = ["MPD.Write, MPD.WriteToString, Period.Write, WriteXML"]

prop("C01", "Reading and writing a manifest loses and invents nothing in the vocabulary",
 "For every manifest made of the DASH, SCTE 35 and SCTE 214 elements and attributes that the library models, in any number, order and nesting, reading it exposes every attribute value and text and every child, in document order, in the corresponding field of the model. Writing the model again yields a manifest with exactly the same elements, attributes, values and texts, in the same namespaces, where only the relative order of children with different names, the presentation, and the spelling of equal values may differ. (The raw content of SCTE 35 extension and private byte elements that relies on prefixes declared outside of it is a recorded exception.)",
 ["inputs", "configurations"], "every element kind at every position of the vocabulary, every attribute with a value alphabet per type, attribute pairs, child pairs in both orders, repetitions, saturated subtrees, with and without indentation and header",
 "the tests round-trip some thirty sample manifests, which leave most of the 459 attributes and 260 element positions unused; a wrong name, a dropped or confused field or a value lost at a boundary shows only for the element, position and value concerned",
 ["mpd/mpd.go", "mpd/scte35.go", "mpd/scte214.go", "mpd/up.go", "mpd/io.go", "xml/read.go", "xml/marshal.go", "xml/typeinfo.go"],
 [("struct tags of the model", "mpd/mpd.go"), ("struct mapping", "xml/read.go, xml/marshal.go, xml/typeinfo.go")], RD + WR)
prop("C02", "A model survives being written and read; a second round changes nothing",
 "For every model value whose strings are made of characters that XML allows (durations not negative and of whole milliseconds or below one millisecond, list items not empty and without white space, positive infinity the only special number, SCTE 35 elements with a namespace), writing it and reading the result gives a model equal to the original in all its exported data: all field values, lists and optional values, where nil and empty lists and optional values equal to an omitted default count as equal, and where indentation may add white space to the mixed content of an Event. Writing that model again gives byte for byte the same manifest; where raw extension attributes are kept, this holds from the second writing on.",
 ["inputs", "configurations"], "every exported field of every model type set alone, in pairs with each other field of the type and all together, with the boundary values of its type, written with several indentations and with and without header",
 "tests compare files that were read from files; models that are built in memory, explicit zero values behind pointers, unusual strings and long lists are not covered",
 ["mpd/mpd.go", "mpd/io.go", "xml/marshal.go", "xml/read.go"],
 [("omitempty and pointer handling", "xml/marshal.go"), ("struct tags", "mpd/mpd.go")], RD + WR)
prop("C03", "Written manifests are well-formed and correct in their namespaces",
 "For every model value whose strings are made of characters that XML allows, every byte sequence that the library writes is a well-formed XML document in which each prefix is declared, no attribute occurs twice on an element, and every element and attribute is in the namespace that the DASH, CENC, PlayReady, DASH-IF, XLink, URL parameter, SCTE 35 or SCTE 214 vocabulary gives it; a single Period is written as a fragment whose unprefixed names belong to the namespace of the manifest it is put in. Indentation and header option do not change that content, and the header is an XML declaration at the start, if asked for, and absent otherwise.",
 ["inputs", "configurations"], "all field combinations of the model generator times all indentation strings of white space, header options and entry points; judged by an independent strict XML parser",
 "tests compare output with stored files or with the library's own reader, which accepts undeclared prefixes and duplicate attributes",
 ["xml/marshal.go", "xml/xml.go", "mpd/io.go"],
 [("start tag and prefix generation", "xml/marshal.go"), ("escaping", "xml/xml.go")], WR)
prop("C04", "The presentation of a manifest does not influence what is read",
 "Two manifests that differ only in presentation are read into equal models: choice of namespace prefixes and place of their declarations, attribute order, quoting, character references, entities and CDATA sections, comments, processing instructions and white space between elements, the XML declaration, line ends, and empty-element tags. Elements and attributes outside the vocabulary are ignored without disturbing their surroundings (content that the model keeps as raw text is kept as it was written).",
 ["inputs"], "all single presentation variations and all pairs of them on every vocabulary document of the generator",
 "tests read manifests from a few packagers with one style each; the number of presentations of one manifest is unbounded",
 ["xml/xml.go", "xml/read.go", "mpd/mpd.go"],
 [("tokenizer", "xml/xml.go"), ("namespace translation", "xml/xml.go"), ("skipping of unknown content", "xml/read.go")], RD)
prop("C05", "Damaged manifests are rejected with an error and never crash the reader",
 "Every manifest that is cut off before the end of its root element, that has mismatched, unclosed or misplaced tags, invalid characters, entities or UTF-8, that has a root element other than MPD, or that has an attribute value that does not fit its numeric, boolean or duration type is rejected with an error and no model. No byte sequence makes the reader panic or run forever, and none of this damage is silently repaired into a model; leniencies that Go's encoding/xml shares (such as repeated attributes, undeclared prefixes or content after the root element) are not meant.",
 ["inputs", "fault_sequences"], "every truncation point, every deletion, duplication and substitution of one byte with an alphabet of significant bytes at every position of vocabulary documents, and every short byte sequence over the markup alphabet",
 "tests try a handful of broken inputs; the fault may be at any byte of any manifest",
 ["xml/xml.go", "xml/read.go", "mpd/io.go", "mpd/duration.go"],
 [("syntax checks in strict mode", "xml/xml.go"), ("value conversion", "xml/read.go")], RD)
prop("C06", "Decoding does not depend on how the input arrives; read errors surface",
 "Decoding a stream gives the same tokens, offsets, positions, values and errors however the bytes are split over Read calls, whether a Read returns data together with an error or io.EOF, and whether the source is a byte reader or not. If the source fails, in strict mode its error is returned after the tokens before it, unless what arrived until then is itself refused, and never turns into a shorter document that decodes without error.",
 ["inputs", "fault_sequences"], "all ways to split short documents into chunks, all two-chunk splits and uniform chunk sizes of longer ones, and an error at every byte position, through Decoder.Token, RawToken and Decode",
 "tests use in-memory readers; partial reads and failures at each position are a schedule of environment answers",
 ["xml/xml.go", "xml/read.go"], [("byte reader and saved errors", "xml/xml.go")], ["xml.NewDecoder, Decoder.Token, RawToken, Decode"])
prop("C07", "A failing writer is reported, whatever byte it fails at",
 "If the destination of a write fails, stops accepting bytes or writes short at any byte, every write function returns an error that is or wraps the error of the destination (or says that the write was short), never success, and passes on a panic of the destination; what reached the destination is a prefix of the correct output, and the returned count is the number of bytes that the destination accepted. If the destination accepts everything, the count is the length of the output, and a failed write does not influence later writes.",
 ["fault_sequences", "inputs"], "a fault at every byte position of outputs around the internal buffer size, with several kinds of failures (error, short write, error with full count, transient error), on every entry point, with and without header and indentation",
 "tests write to memory, which never fails",
 ["mpd/io.go", "xml/marshal.go"], [("counting writer", "mpd/io.go"), ("cached write errors and Flush", "xml/marshal.go")], WR + ["xml.Encoder"])
prop("C08", "Independent reads and writes may run concurrently",
 "Any number of goroutines may read manifests and write models at the same time, also several that only write the same model, with the same results, byte for byte and value for value, as when they run one after the other, from a cold start of the process and later. None of them observes an unsynchronized access, blocks forever or sees data of another.",
 ["schedules"], "all interleavings up to a preemption bound of two and three concurrent reads and writes of small manifests at the level of the statements of the library, from the cold and from the warm state",
 "the tests run one goroutine; a race on a cache or a pooled encoder shows only in particular interleavings",
 ["xml/typeinfo.go", "xml/marshal.go", "xml/read.go", "mpd/io.go"],
 [("type information caches (sync.Map)", "xml/typeinfo.go"), ("encoder pool (sync.Pool)", "xml/marshal.go")], RD + WR)
prop("C09", "Earlier encodings, also failed ones, do not influence later ones",
 "What an encoding produces depends only on its value and options: after any sequence of encodings that succeeded, failed because of the value or the destination, or were abandoned half-way, with any indentations and with pooled encoders, the next one that is started afresh gives the same bytes and the same error as in a fresh process. A released encoder keeps no reference to its former destination and writes nothing more to it.",
 ["histories"], "all sequences up to a depth of operations (write, write with indentation, failing value, failing writer, abandoned tokens, namespaces, pooled and private encoders), each followed by probes",
 "a test starts from a clean encoder; state that leaks from one use of a pooled encoder to the next shows only for particular pairs of uses",
 ["xml/marshal.go", "mpd/io.go"], [("ReleaseEncoder and AcquireEncoder", "xml/marshal.go")], WR + ["xml.AcquireEncoder, xml.ReleaseEncoder"])
prop("C10", "Durations are formatted as valid xs:duration values, exact to the millisecond",
 "For every duration value the text form is a valid xs:duration made of hours, minutes and seconds in canonical ranges (minutes and seconds below 60, at most 3 decimals above a millisecond, no leading or trailing components that are zero, except in the zero duration itself), with a sign if negative. Its value is the duration rounded to the nearest millisecond, or exactly the duration when it rounds to less than one millisecond, and equal durations have equal texts in attributes, too.",
 ["inputs"], "all durations around every unit boundary (nanoseconds to the full int64 range) and full grids of component combinations, against exact integer arithmetic",
 "tests sample about twenty durations; carries and roundings at unit boundaries are where it breaks",
 ["mpd/duration.go"], [("Duration.String", "mpd/duration.go")], ["Duration.String, MarshalXMLAttr"])
prop("C11", "Duration parsing accepts exactly the supported durations and gets their value",
 "Parsing accepts every text P[nD][T[nH][nM][nS]] with at least one component, in this order, where only the seconds may have decimals, and yields its exact value rounded to the nearest nanosecond. It rejects with an error every text with signs, other or repeated or misordered units, missing numbers or units, other characters, or a value that does not fit, and never yields a wrong value; whatever further spellings it tolerates (such as a time separator without time components) get their exact value, and formatting a parsed duration of whole milliseconds and parsing it again gives the same value.",
 ["inputs"], "all strings up to a length over the alphabet of the grammar, all component combinations with boundary numbers, and mutations of valid durations, against an exact rational reference parser",
 "tests list some thirty strings; the language of strings is unbounded",
 ["mpd/duration.go"], [("ParseDuration", "mpd/duration.go")], ["mpd.ParseDuration, Duration.UnmarshalXMLAttr"])
prop("C12", "Conversions between seconds and date-times are exact",
 "Converting integral seconds, milliseconds or fractional seconds since 1970 to a date-time gives the UTC time, cropped to milliseconds in the fractional case, for every year from 1 to 9999 and as exactly as a float64 can tell, and converting a date-time with any fraction and zone offset back gives its exact number of seconds up to the precision of a float64. The absolute start of a Period is the availability start time of the manifest plus the start of the Period, or an error when one of them is missing or invalid.",
 ["inputs"], "all day, month, leap year and century boundaries from year 1 to 9999, all milliseconds around them, all zone offsets, negative values, against an independent proleptic Gregorian calendar",
 "tests sample a few dates after 1970",
 ["mpd/io.go", "mpd/period.go"], [("time conversion", "mpd/io.go")], ["ConvertToDateTime, ConvertToDateTimeS, ConvertToDateTimeMS, DateTime.ConvertToSeconds, Period.AbsoluteStart"])
prop("C13", "Period starts, durations and types follow the rules of ISO/IEC 23009-1",
 "For every manifest, static or dynamic, with any number of Periods that each have or lack start and duration, the start of a Period is its own start, else the start plus duration of the previous one, else 0 for the first Period of a static manifest, else an error. Its duration is its own; else, in a static manifest with presentation duration, the next Period's start attribute, or for the last Period the presentation duration, minus its own start; else, if it is in a dynamic manifest and has a start attribute, the difference to the next Period's start attribute; else an error. Its type (regular, early available, early terminated) and its index follow from the same data.",
 ["inputs", "configurations"], "all assignments of absent, zero and positive starts and durations to manifests of up to 5 (thorough 6) Periods, static and dynamic, with and without presentation duration and update period, against an independent formulation of the rules",
 "tests cover a dozen configurations out of the combinatorial set",
 ["mpd/period.go"], [("GetStart, GetDuration, GetType, GetIndex", "mpd/period.go")], ["Period.GetStart, GetDuration, GetType, GetIndex, AbsoluteStart"])
prop("C14", "Parent links always lead to the container of an element",
 "After reading a manifest, cloning one, appending elements or setting the parents again, in any combination, every Period, AdaptationSet (of a Period's list of AdaptationSets), Representation and SubRepresentation that is contained in its parent refers to exactly that parent, or, if it was put in several containers, to one of them, and functions that need the parent find the data of that parent. An appended element is the last of its list. Elements that were not added to a container have no parent, and functions that need it report an error instead of failing.",
 ["histories", "inputs"], "all sequences of build operations up to a depth and all tree shapes up to a width, read from text or built, checked after every step",
 "tests check a few links after reading one manifest",
 ["mpd/parents.go", "mpd/mpd.go", "mpd/io.go"], [("SetParents and Append functions", "mpd/parents.go")], ["SetParent(s), Append*, Parent, Clone"])
prop("C15", "A clone is equal to and independent of the original",
 "Cloning a manifest, a Period or an AdaptationSet gives a value with the same exported data and the same written form, with parent links inside the clone that refer to the clone only. Afterwards no change to any field, list or optional value of one of them, at any depth, is observable in the other.",
 ["inputs", "histories"], "every exported field and list element at every depth of saturated models, changed in the clone and in the original, one at a time; clones of clones",
 "tests change one field of one clone",
 ["mpd/mpd.go", "mpd/period.go", "mpd/parents.go"], [("deep copy and SetParents", "mpd/mpd.go, mpd/period.go")], ["mpd.Clone, Period.Clone, AdaptationSetType.Clone"])
prop("C16", "Inherited properties and URL templates resolve as the standard says",
 "For every combination of presence and absence on a Representation and its AdaptationSet, the effective segment template, MIME type, codecs and content protections are those of the Representation if it has them and else those of the AdaptationSet. Initialization and media URLs are the effective template with every occurrence of $RepresentationID$ and $Bandwidth$ replaced by the values of the Representation and everything else unchanged, or an error if there is no parent or template, and the timescale is 1 unless set otherwise.",
 ["inputs", "configurations"], "all presence combinations, all template strings of up to 4 (thorough 5) pieces from an alphabet of identifiers, near misses and literals, all boundary bandwidths",
 "tests use one template with one identifier",
 ["mpd/mpd.go"], [("Get functions of RepresentationType", "mpd/mpd.go")], ["RepresentationType.Get*, AdaptationSetType.Get*, SegmentBaseType.Get/SetTimescale"])
prop("C17", "SCTE 35 events keep their namespace, carriage form and content",
 "For every SCTE 35 event in both carriage forms (Signal or SpliceInfoSection directly in the Event), with either SCTE 35 namespace and with default or prefixed notation, reading finds the splice information, and writing keeps namespace, form, all commands, descriptors, attributes and extensions (apart from the recorded findings about raw extension content that relies on prefixes declared outside of it). Elements made by the constructors are written in the canonical SCTE 35 namespace, also next to elements of other namespaces, and the classification of event streams as SCTE 35 is exactly by the three SCTE 214-1 scheme identifiers.",
 ["inputs", "configurations"], "all SCTE 35 element kinds and attribute values in both forms, both namespaces, mixed in one manifest in all orders, default and prefixed; all combinations of constructors; all near-miss scheme identifiers",
 "tests read a few samples of each form",
 ["mpd/scte35.go", "xml/marshal.go", "xml/read.go"], [("captured XMLName", "mpd/scte35.go")], ["EventType.SpliceInfo, EventStreamType.IsSCTE35, New* in scte35.go"])
prop("C18", "Every legal text survives in every text position, exactly",
 "For every string of characters that XML allows, in every attribute and text field of the model, the written manifest carries it escaped such that an XML parser gets it back exactly (carriage return, line feed, tab and quotes in attributes and markup characters included), and reading it with the library does so, too. Characters that XML does not allow and invalid UTF-8 are replaced by U+FFFD, one per invalid character or byte, and never produce an ill-formed document; fields written as CDATA sections, which can escape nothing, are meant for legal text without carriage returns.",
 ["inputs"], "every Unicode scalar value and every byte, all pairs over an alphabet of significant characters, lengths around buffer sizes, in an attribute and a text position, and the significant ones in all text positions",
 "tests use ASCII text with few special characters",
 ["xml/xml.go", "xml/marshal.go"], [("EscapeText, EscapeString", "xml/xml.go"), ("entity decoding", "xml/xml.go")], WR + RD + ["xml.EscapeText, xml.Escape"])
prop("C19", "The XML decoder accepts exactly well-formed XML and yields its exact content",
 "In strict mode the decoder yields for every byte sequence that both are defined on the same token stream as Go's encoding/xml and as the XML specification: it accepts well-formed element content and reports an error for everything else, apart from the documented differences of this fork in the treatment of namespace declarations and colons in names and apart from leniencies that it shares with encoding/xml. Token copies stay valid, offsets and line and column numbers are those of the input, and RawToken, Token, Skip and Decode agree with each other.",
 ["inputs"], "all byte strings up to a length over alphabets of markup characters and all sequences up to a depth over alphabets of markup pieces, against Go's encoding/xml and an independent parser",
 "the inherited tests sample; the language of documents is unbounded",
 ["xml/xml.go", "xml/read.go"], [("tokenizer", "xml/xml.go")], ["xml.Decoder"])
prop("C20", "Any sequence of tokens is encoded faithfully or refused",
 "For every sequence of tokens with proper XML names and distinct attributes given to the encoder, it either returns an error at the first token that cannot be encoded (unmatched or unclosed elements, comments, instructions and directives that contain their own end, a late XML declaration), leaving its state as it was, or the output decodes to the same sequence, where adjacent texts are merged and with indentation white space is added before tags only. Output that has been reported as successful is never ill-formed because of a token that should have been refused, and closing the encoder reports unclosed elements.",
 ["histories", "configurations"], "all token sequences up to a depth over an alphabet of start and end tags with and without namespaces, attributes, texts, comments, instructions and directives, with and without indentation",
 "tests list some fifty sequences",
 ["xml/marshal.go"], [("EncodeToken, writeStart, writeEnd", "xml/marshal.go")], ["xml.Encoder.EncodeToken, Flush, Close, Indent"])
prop("C21", "The mapping between Go structs and XML agrees with encoding/xml",
 "For every struct type whose fields use the tags of the Go package encoding/xml (attributes, elements, nested paths, chardata, cdata, innerxml, comment, any, omitempty, embedded structs, pointers, slices, interfaces, (un)marshalers) without prefixes or namespaces, encoding gives the same bytes and decoding the same value, or both give an error, as encoding/xml does (texts without tabs and line breaks; where encoding/xml panics, nothing is claimed). Types that were rejected stay rejected, whichever operation meets them first.",
 ["programs", "inputs"], "all struct types of up to 3 fields over an alphabet of field types and tags, including embedded and conflicting ones, with several values and documents each, against Go's encoding/xml",
 "tests cover some hundred hand-written types; conflicts and combinations are combinatorial",
 ["xml/marshal.go", "xml/read.go", "xml/typeinfo.go"], [("type information and conflicts", "xml/typeinfo.go"), ("struct mapping", "xml/marshal.go, xml/read.go")], ["xml.Marshal, xml.MarshalIndent, xml.Unmarshal"])
prop("C22", "Names keep their namespaces in every nesting of declarations",
 "For every tree of elements and attributes with any namespaces, written with any mixture of default, inherited, preferred and conflicting prefixes, with explicit declarations given as attributes, the output declares every prefix it uses, never declares one twice on an element, and each name expands to exactly the namespace it was given. Conversely the decoder expands every name by the innermost declaration in scope, and declarations end with their element; an element that is given no namespace is written without prefix.",
 ["inputs", "configurations"], "all element trees of up to 3 (thorough 4) elements over namespaces, preferred prefixes, attributes and explicit declarations that collide, through tokens and through struct tags, against an independent namespace resolver",
 "tests cover some thirty declarations; shadowing and collisions need particular combinations at several levels",
 ["xml/marshal.go", "xml/xml.go"], [("getPrefix, createPrefix, writeStart", "xml/marshal.go"), ("translate", "xml/xml.go")], ["xml.Encoder, xml.Decoder, xml.Marshal"])
prop("C23", "Manifests built with the constructors contain what was put in",
 "For every sequence of constructor and builder calls with meaningful arguments (numbers that fit their fields, profiles that are not empty and have no comma), the built values hold exactly the arguments: ids, codecs, types, bandwidths, sizes, ranges, schemes, values, durations (fractional seconds to the microsecond) and profiles, where profiles are added once each and in order and everything not given is absent. A method changes only the value that it is called on, not what that value shares with a copy. The manifest written from them contains exactly these values and is read back as the same model.",
 ["histories", "inputs"], "all sequences of builder calls up to a depth and all boundary arguments of every constructor",
 "tests build one or two manifests",
 ["mpd/mpd.go", "mpd/parents.go", "mpd/ptrs.go", "mpd/scte214.go"], [("New* and Append* functions", "mpd/mpd.go, mpd/parents.go"), ("AddProfile", "mpd/mpd.go"), ("pointer helpers", "mpd/ptrs.go")], ["New*, Append*, AddProfile, SetSegmentBase, Ptr, Seconds2DurPtr, Seconds2DurPtrFloat64"])
prop("C24", "All entry points agree with each other",
 "Reading the same bytes from a string, a byte slice or a file gives equal models or errors in all cases, with all parents set. Writing the same value to a writer, to a string and through the generic function, as a manifest, as a Period or as part of it, gives the same bytes, the returned count is their number, and neither reading nor writing changes its input.",
 ["inputs", "configurations"], "all vocabulary documents and models of the generators, sizes around buffer boundaries, and broken inputs, through every pair of entry points",
 "tests use one entry point per sample",
 ["mpd/io.go", "xml/marshal.go", "xml/read.go"], [("entry points", "mpd/io.go")], RD + WR)
prop("C25", "Hostile input costs bounded time and memory",
 "Reading input of n bytes takes time and memory proportional to n, also for deep nesting, many attributes, many namespaces, long names, texts and comments, huge repetition and entity-like content. Nesting of 4,000 levels is read, while nesting of 20,000 levels or more, where reading it would need as many nested calls, is refused with an error instead of exhausting the stack, and there is no expansion of entities.",
 ["inputs"], "a family of growing inputs for every repeatable construct of the grammar and every element of the vocabulary, measured by allocations and by counting work at doubling sizes",
 "tests use small inputs",
 ["xml/xml.go", "xml/read.go"], [("depth limit", "xml/read.go"), ("entity table", "xml/xml.go")], RD + ["xml.Decoder, xml.Unmarshal"])
prop("C26", "Numbers are exact over their full range and out-of-range values are errors",
 "Every numeric and boolean attribute and text of the model holds every value of its type exactly, from the smallest to the largest finite one (and INF where the model allows it), through writing and reading, in all spellings that Go's number syntax for the type allows with surrounding white space. A value outside of the range, with other characters, or empty where a number is needed is rejected with an error or, if the library accepts empty values as zero, read as zero, and never wraps around or is truncated.",
 ["inputs"], "every numeric field of the model with the values around every power of two and ten in its range and beyond and with malformed spellings, against exact big-number arithmetic",
 "tests use small numbers in a few attributes",
 ["xml/read.go", "xml/marshal.go", "mpd/mpd.go"], [("copyValue and marshalSimple", "xml/read.go, xml/marshal.go"), ("FloatInf64", "mpd/mpd.go")], RD + WR)
prop("C27", "A lenient decoder agrees with encoding/xml on every text",
 "With Strict set to false, with or without AutoClose and Entity (also HTMLAutoClose and HTMLEntity), decoding any sequence of bytes gives the same tokens, raw tokens, offsets, positions and end or error as Go's encoding/xml with the same settings, also through Skip, DecodeElement and token readers and however the input arrives: attributes without value or without quotes, elements closed in disorder or not at all, unknown and unfinished references. What a strict decoder accepts means the same to a lenient one without AutoClose. Differences are those of the namespace declarations (their names are in the namespace http://www.w3.org/2000/xmlns/, an empty value is refused in the declaration of a prefix, as is a name with a colon at its end), and that a start tag with attributes may end with the input, the error being reported by the next token.",
 ["inputs", "configurations"], "all texts over markup pieces up to a length, alone and in the contexts that lenient rules apply to, under four settings, in lockstep with encoding/xml",
 "tests decode a dozen short lenient texts, mostly their first token only",
 ["xml/xml.go"], [("rawToken, attrval, autoClose, popElement, text", "xml/xml.go"), ("HTMLEntity, HTMLAutoClose", "xml/xml.go")], ["xml.Decoder (Strict, AutoClose, Entity), xml.HTMLEntity, xml.HTMLAutoClose"])
prop("C28", "Custom marshaling methods stay within their element",
 "Whatever sequence of calls a MarshalXML or UnmarshalXML method makes on the encoder or decoder it is given (start and end tags, tokens, values, nested custom methods, skipping, returning early, errors, panics), wherever its value is placed (field, list, path, interface, root, nested), the calls, the output or the values read, what is read and written around the value, and the success or error of the whole are those of Go's encoding/xml; accepted output is well-formed and has the surrounding fields in place, a method that leaves elements open or closes others' is reported, RawToken is refused within UnmarshalXML, and the decoder goes on behind the value. The same holds for the attribute and text methods, including those that return errors or no attribute. An error or panic leaves nothing behind for later calls.",
 ["histories", "inputs", "configurations"], "all scripts of calls up to a depth by custom methods in every place and document, in lockstep with encoding/xml and judged by an independent parser",
 "tests have a few methods that behave well",
 ["xml/marshal.go", "xml/read.go"], [("marshalInterface, marshalTextInterface, marshalAttr", "xml/marshal.go"), ("unmarshalInterface, unmarshalAttr, pushEOF and popEOF", "xml/read.go, xml/xml.go")], ["xml.Marshaler, xml.Unmarshaler, xml.MarshalerAttr, xml.UnmarshalerAttr, encoding.TextMarshaler"])
prop("C29", "Written children are in the order of the schema",
 "However a model was made - by reading a manifest whose children come in any order, or by setting its fields in any order - the library writes the children of every element in the sequence that the DASH schema (ISO/IEC 23009-1) and the SCTE 35 schema prescribe for its type: inherited children before those that an extending type adds (so Initialization, RepresentationIndex, SegmentTimeline and BitstreamSwitching before SegmentURL in a SegmentList, and the descriptors of the representation base before Accessibility, Role, Rating and Viewpoint in AdaptationSet, Preselection and InitializationSet), in manifests, single Periods and parts alike. Children whose order the schema leaves open (within descriptors, content protection and events, and the alternatives of a choice) may come in any order.",
 ["inputs", "configurations"], "all models within bounds, and all documents with two or three kinds of children of an element in every order, written and compared with the sequences of the schemas",
 "tests compare outputs without regard to the order of children, or outputs for inputs that are already in the order that the code writes",
 ["mpd/mpd.go", "mpd/scte35.go", "xml/marshal.go", "xml/typeinfo.go"], [("field order of the model structs", "mpd/mpd.go, mpd/scte35.go"), ("getTypeInfo (embedded fields), marshalStruct", "xml/typeinfo.go, xml/marshal.go")], WR)
prop("C30", "Struct fields match and write the namespaces in their tags",
 "For every struct type whose fields and XMLName carry namespaces in their tags, with or without preferred prefixes (\"uri name\", \"uri prefix:name\"), for elements, attributes, paths, lists, pointers, embedded and nested structs and (un)marshalers: reading gives each element and attribute to the field that names its namespace and local name, else to one that names no namespace, whatever prefixes the text uses, and never to a field of another namespace; a root or nested element in another namespace than its XMLName is refused; fields of one name in different namespaces coexist, and types whose fields conflict are refused. Writing puts every element and attribute in the namespace of its tag, whatever prefixes conflict, leaves elements without namespace unprefixed and attributes without namespace in none, and does not change its input. In all this the library agrees with Go's encoding/xml, given the same types without prefixes, except that an attribute claimed by a field of its namespace is not also given to a field without.",
 ["inputs", "configurations"], "all struct types of one to three namespaced fields within bounds, all their values written and compared as namespace-expanded trees, and all texts of a family of namespaced texts read, in lockstep with encoding/xml",
 "tests have a handful of structs with a namespace in a tag",
 ["xml/typeinfo.go", "xml/marshal.go", "xml/read.go"], [("structFieldInfo, addFieldInfo, getTypeInfo", "xml/typeinfo.go"), ("marshalValue, defaultStart, createPrefix", "xml/marshal.go"), ("unmarshal, unmarshalPath", "xml/read.go")], ["xml.Marshal, xml.Unmarshal, xml.Encoder, xml.Decoder"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
