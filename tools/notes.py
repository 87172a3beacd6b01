NOTE["C01"] = ("TLA+/TLC: walk semantics model-checked; recorded validations of real messages checked against it",
  "TLC decides, for every recorded message, that the errors the real code reports are exactly those the specification derives (bag of code, element, path). Every text field of every one of the 2185 structures meets every value of its class's value list (boundary lengths, hits, near misses, non-ASCII, padding); shapes beyond the covering set are sampled. Trusted: the schema dictionary transcribed from the pinned commit, the harness's JSON writer.")
NOTE["C02"] = ("TLA+/TLC: small-step validator model-checked in all modes; recorded runs in all configurations checked against it",
  "The relation between the modes is model-checked over all trees of a small schema; the real code is run under all 8 switch settings and the 3 presets on covering, clean, sparse and dense messages of all 62 types, TLC judging each run.")
NOTE["C03"] = ("TLA+/TLC: pattern and length semantics in TLA+, recorded rule checks judged by TLC",
  "All short strings over the class borders of every schema pattern plus edits of matching values; lengths around all bounds with multi-byte text. Beyond these strings: sampled.")
NOTE["C04"] = ("TLA+/TLC: JSON encoding specified in TLA+ and model-checked for faithfulness; recorded to_json/from_json runs checked against it",
  "TLC compares, member by member, the JSON of every recorded message with the encoding the specification derives, and the message read back with the one written. Every structure and field occurs; shapes and texts beyond the covering set are sampled. Values f64 cannot hold exactly are compared loosely except on dedicated events (known finding F-f64).")
NOTE["C05"] = ("TLA+/TLC: XML encoding specified in TLA+ and model-checked; recorded XML tokenised by an independent strict reader and checked against it",
  "TLC compares the token sequence of every recorded XML with the one the specification derives. Trusted: the harness's strict XML tokenizer. Coverage as for C04.")
NOTE["C06"] = ("TLA+/TLC: write/read inverse model-checked; recorded round trips checked against it",
  "TLC judges the message read back against the one written, for every type on its own and enveloped. Known finding F-trim (surrounding whitespace is lost) is reported on its own events only.")
NOTE["C07"] = ("TLA+/TLC: acceptance derived from the shape specification, single-fault inputs replayed into the real readers and judged by TLC",
  "Every field of every structure is once dropped, once duplicated, once given an unknown code, malformed amount or indicator, in XML and JSON, in at least one context; multi-fault input is not explored.")
NOTE["C08"] = ("TLA+/TLC: registry specified as a relation with its one-to-one laws checked by TLC; every recorded lookup and dispatch judged by TLC",
  "Every name and near-miss name in every lookup, every type's message through every dispatch, and every type's content under every other type's root element; TLC compares each answer with the relation. Names outside the listed near misses are not explored.")
NOTE["C09"] = ("TLA+/TLC: framing automaton model-checked over all framings with few deviations, each framing written out by TLC and replayed into the real reader",
  "All framings with at most two deviations (three in thorough) from the plain one over 14 dimensions, each with a different message with hostile text; the result read is compared in full by TLC. Prefixed framing elements, comments and CDATA are not explored.")
NOTE["C10"] = ("TLA+/TLC: malformed inputs and message states enumerated by TLC, replayed into every function; TLC judges the recorded outcomes",
  "All sequences of up to 3 fragments (4 in thorough) of a 36-fragment alphabet, every message state x configuration, and cuts and changes of valid messages at sampled positions; deep and long inputs on an 8 MB stack. Other inputs are not explored.")
NOTE["C11"] = ("TLA+/TLC: messages by identifier, related header, decoys and layout enumerated by TLC, replayed; TLC judges every recorded answer",
  "Every combination of own identifier form, related-header identifier, decoy text and layout, for rotating message types, XML and JSON. One deviation is allowed: an identifier consisting of white space may be taken for a missing one in XML.")
NOTE["C16"] = ("TLA+/TLC: collector state machine model-checked; all its short behaviours replayed into the real collector and results, trace checked by TLC",
  "All operation sequences up to a bound from the model plus random long ones; the projection (errors, count, flags) after every step is compared by TLC.")
NOTE["C12"] = ("TLA+/TLC: the three judging procedures model-checked to agree on all framings; their recorded verdicts on replayed inputs judged by TLC",
  "Inputs: all framings with at most two deviations of complete messages and bare documents, every structure's fields absent, repeated or set to other values (sampled values in quick, all in thorough), all short strings of the malformed-input alphabet, cuts and changes of valid messages, contents that are not text; from payload, string field and wrapper.")
NOTE["C17"] = ("TLA+/TLC: framing automaton for bare documents, each framing written out by TLC and replayed; recorded conversions judged by TLC",
  "All bare framings with at most two deviations (three in thorough) with hostile texts for all 25 types, larger documents, and every structure's fields absent, repeated or set to other values, compared with the enveloped form; near-miss type names refused. For faulty documents equality of the two results is evaluated by the harness, the rest by TLC.")
NOTE["C13"] = ("TLA+/TLC: pipeline state machine (store, message, errors, outcome of each step) model-checked; schedules written out by TLC and random ones replayed through the real tasks and the workflow engine, trace checked by TLC",
  "All schedules of the model up to its bound over publish, parse, validate and generate steps with right and wrong configurations, plus engine workflows with conditions; after every step TLC compares the store, the errors and the outcome with the specification. Contents of messages are the concern of C04, C05, C09 and C14.")
NOTE["C14"] = ("TLA+/TLC: publish/parse cycle model-checked; recorded cycles through the real steps checked against the JSON encoding of the specification",
  "For messages of all 26 types (every field and structure, hostile texts) TLC compares the JSON parsed from the published XML with the specification's, member by member; equality of repeated results is by value. Known finding F-trim.")
NOTE["C15"] = ("TLA+/TLC: family of hidden-state leaks specified, TLC shows that the schedules it writes out reveal each of them; schedules replayed in fresh processes, every recorded answer compared by TLC with the item's answer in a process of its own",
  "About 3700 items (operation x message variant) over all 62 modules; short schedules of the specification over up to 3 threads taking turns, long orders (forward, backward, random with repeats), 8 free-running threads, bursts. Interleavings inside an operation are only met by chance; leaks outside the family, or needing a key pair not drawn, may be missed.")
