#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the text stays reviewable)"""
import json
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}})

prop("C01", "Every field rule is enforced, exactly, everywhere in a message",
 "Validating a message of any supported document or header type reports exactly the field rules it breaks: for every occurrence of every text element, 'too short' (1001), 'too long' (1002) and 'does not match the pattern' (1005), each with the element's name and the dotted path of element names from the root. Nothing else is reported, and no breach is lost, at any nesting depth, at any position of a repeating element, and whatever other errors the message has.",
 ["inputs"], "all 62 document and header types; every text element of every structure; every value around each rule's boundary; every combination of present, absent and repeated components",
 "The unit tests call no Validate implementation at all and the scenario tests only check structural validity of generated good messages; 2185 generated implementations with 6200 rules are never exercised on a bad value.",
 ["src/document/", "src/header/", "src/validation.rs"],
 [("one Validate implementation per structure", "src/document/*.rs, src/header/*.rs"), ("length, pattern and path helpers", "src/validation.rs:helpers")],
 ["Validate::validate on the root types", "ErrorCollector::errors"], [("collector", "errors found so far", "src/parse_result.rs:ErrorCollector")])

prop("C02", "Fail-fast, lenient and full validation relate as documented",
 "Full validation of a message reports every breach and marks none critical; with validation of optional components switched off exactly the breaches that lie outside optional components are reported. With fail-fast on, an invalid message yields exactly one error, marked critical, which is one of the errors the same configuration reports without fail-fast, and a valid message yields none.",
 ["inputs", "configurations"], "all document and header types, all messages, all combinations of the three configuration switches, single and repeated use of a collector",
 "No test uses a non-default configuration; the relation has to hold between two runs for every message.",
 ["src/validation.rs", "src/parse_result.rs", "src/document/", "src/header/"],
 [("fail-fast branches of the helpers", "src/validation.rs:helpers"), ("validate_optional_fields gates in every Validate implementation", "src/document/*.rs"), ("configuration presets", "src/parse_result.rs:ParserConfig")],
 ["Validate::validate", "ErrorCollector", "ParserConfig::{default,fail_fast,lenient}"])

prop("C03", "Length rules count characters and patterns match the whole value",
 "A length rule accepts exactly the values whose number of Unicode characters, surrounding whitespace included, lies within its bounds; a pattern rule accepts exactly the values that match the pattern as a whole once surrounding whitespace is removed; a required rule rejects exactly absent values. Each check records one error with the right code, element and path exactly when it rejects, and says so in its result.",
 ["inputs"], "all strings (any script, any length) and all bounds; all pattern facets the schemas use; previous contents of the collector",
 "Tests never call the rule checks; the claim ranges over all strings, including multi-byte text, boundary lengths, near misses and values that merely contain a match.",
 ["src/validation.rs"], [("validate_length, validate_pattern, validate_required, child_path", "src/validation.rs:helpers")],
 ["validation::helpers::*", "ErrorCollector"])

prop("C04", "JSON carries a message completely, under the schema's names",
 "Every message of every type, written to JSON, uses exactly the ISO element names with one member per present element, arrays for repeating ones and nothing for absent ones, and reading that JSON back yields an equal message. This holds for bare documents and headers as well as for complete messages with namespaces, header and document.",
 ["inputs"], "all document and header types; all shapes (absent, present, repeated); all text including quotes, control characters, non-ASCII and markup; the pretty and the compact form",
 "The end-to-end tests compare a handful of generated documents of 17 message types after rounding numbers; most optional elements never occur in them.",
 ["src/mx_envelope.rs", "src/document/", "src/header/"],
 [("serde names and skip rules on every field", "src/document/*.rs"), ("to_json / from_json", "src/mx_envelope.rs:MxMessage")],
 ["MxMessage::{to_json,from_json}", "serde_json on root types"])

prop("C05", "Generated XML is well-formed and follows the schema",
 "The XML produced for any message is well-formed whatever its text values contain, consists of exactly the elements that are present, under their ISO names, in schema order and properly nested, with currency codes as attributes, amounts as plain decimals and every text value recoverable unchanged. A complete message is wrapped in one envelope holding the header element and one document element whose child is the ISO root element of its message type.",
 ["inputs"], "all document and header types, all shapes, all text made of XML characters, all namespace strings",
 "Tests never look at the XML itself, only at what the library's own parser reads back from it, so a wrong name, order or escape that is wrong on both sides goes unseen.",
 ["src/mx_envelope.rs", "src/document/", "src/header/"],
 [("serialisation with root renaming", "src/mx_envelope.rs:to_xml, serialize_with_rename"), ("serde names and field order", "src/document/*.rs, src/header/*.rs")],
 ["MxMessage::to_xml", "quick_xml::se on root types"])

prop("C06", "Messages survive the XML round trip",
 "Writing a complete message to XML and reading that XML back yields an equal message: same namespaces, same header, same document, every text, amount, code and repetition. The same holds for every document and header type on its own.",
 ["inputs"], "all message types, all shapes, all text values including markup characters, line breaks and non-ASCII, all namespace strings",
 "Tests compare only the document part of a few generated messages, with numbers rounded and header and namespaces ignored.",
 ["src/mx_envelope.rs", "src/document/", "src/header/"],
 [("to_xml and from_xml with section extraction", "src/mx_envelope.rs:MxMessage")],
 ["MxMessage::{to_xml,from_xml}", "quick_xml on root types"])

prop("C07", "Structurally valid input is accepted, structurally invalid is refused",
 "Input (XML or JSON) in which every mandatory element is present, no non-repeating element is duplicated, and every code, amount and indicator has a permitted form is accepted, whatever optional parts are present or absent and however often repeating parts repeat. Input that lacks one mandatory element, duplicates one non-repeating element, or has one unknown code, malformed amount or malformed indicator is refused with an error, at whatever depth the fault lies.",
 ["inputs"], "all document and header types; every structure and element position for the fault; XML and JSON",
 "The suite has no structurally invalid message; which of about 7900 fields is mandatory, single or coded is never probed.",
 ["src/document/", "src/header/", "src/mx_envelope.rs", "src/xml.rs"],
 [("Option/Vec/enum shape of every field", "src/document/*.rs, src/header/*.rs"), ("typed deserialisation", "src/mx_envelope.rs:deserialize_document")],
 ["MxMessage::{from_xml,from_json}", "serde on root types"])

prop("C08", "All type tables describe the same 25 message types",
 "For each of the 25 supported message types the short identifier, full identifier, ISO root element and namespace form a one-to-one correspondence, and every way of going from one to another (lookups by short or full identifier or by root element, the document's own namespace, a message's namespace, dispatch when writing and reading XML and JSON, and the pipeline's type detection) agrees with it. Anything that is not one of these names is answered with 'unknown' or, where documented, passed through unchanged, never with another type.",
 ["inputs", "configurations"], "all ordered pairs of names and lookups, for all 25 types, plus near-miss names",
 "Tests check 3 of 25 entries in one direction each; a swap between two entries or two tables is invisible to them.",
 ["src/message_registry.rs", "src/mx_envelope.rs", "src/xml.rs", "src/plugin/common.rs"],
 [("MESSAGE_REGISTRY and its lookups", "src/message_registry.rs"), ("dispatch tables", "src/mx_envelope.rs:serialize_document, deserialize_document, Document::namespace"), ("Document-only dispatch", "src/xml.rs:xml_to_json_via_document"), ("element mapping", "src/plugin/common.rs")],
 ["message_registry::*", "Document::namespace", "MxMessage::*", "xml_to_json_via_document", "map_document_element_to_message_type"])

prop("C09", "Envelope framing does not affect the message inside",
 "Reading an enveloped message gives the same header and document whatever XML declaration, comments, processing instructions, whitespace between elements, attributes or namespace declarations on the framing elements, or wrapper element surround them; the namespaces reported are those declared on the opening tags up to and including the header's. Text inside the header or the document, properly escaped or in CDATA sections, never changes where header, document or namespaces are taken from, and input without header, without document, or with an unknown or missing root element is refused.",
 ["inputs"], "all combinations of declaration, wrapper, attributes, whitespace and missing parts, for all message types, with hostile text in the values",
 "The tests only read envelopes in the one form the library itself writes.",
 ["src/mx_envelope.rs"], [("section and attribute extraction by string search", "src/mx_envelope.rs:extract_section, extract_attribute, detect_document_type")],
 ["MxMessage::from_xml"])

prop("C10", "No input makes the library panic",
 "Every function that takes text (reading XML or JSON, peeking, type extraction, Document-only conversion, validation helpers) and every pipeline step returns a value or an error for any string and any message state, however malformed, truncated or hostile; it never panics or aborts.",
 ["inputs"], "all strings up to a bound over the markup alphabet, truncations and mutations of valid messages at every position, arbitrary JSON states of a pipeline message",
 "Tests feed well-formed generated messages only; string-index arithmetic is wrong only on inputs nobody writes by hand.",
 ["src/mx_envelope.rs", "src/xml.rs", "src/plugin/", "src/validation.rs"],
 [("string slicing in section extraction and type detection", "src/mx_envelope.rs, src/xml.rs, src/plugin/common.rs"), ("handling of message state", "src/plugin/*.rs")],
 ["all public text-taking functions", "the four pipeline functions"])

prop("C11", "Peeking at the type agrees with parsing",
 "For every complete message, the type read from its XML or JSON without full parsing equals the normalised type identifier in the header of the fully parsed message, and equals the type the pipeline extracts where document and header agree. Other text in the message never influences it, and when the identifier is absent an error is returned.",
 ["inputs"], "all message types, short, full and unknown identifiers, whitespace around the identifier, hostile text in other elements, XML and JSON",
 "No test calls the peek functions.",
 ["src/mx_envelope.rs"], [("peek functions", "src/mx_envelope.rs:peek_message_type_from_xml, peek_message_type_from_json"), ("normalisation", "src/message_registry.rs:normalize_message_type")],
 ["peek_message_type_from_xml", "peek_message_type_from_json", "MxMessage::message_type"])

prop("C12", "Validating and parsing give the same verdict",
 "For every input the pipeline's validation step calls it valid exactly when its parsing step would succeed on it, and exactly when the library's envelope check accepts it; it lists at least one error exactly when it says invalid. This holds for enveloped and Document-only input and for every kind of structural fault.",
 ["inputs"], "all message types, both framings, well-formed and faulty input, arbitrary text",
 "Tests run both steps only on good generated messages, where both say yes.",
 ["src/plugin/validate.rs", "src/plugin/parse.rs", "src/xml.rs"],
 [("validate_xml", "src/plugin/validate.rs"), ("parse_xml_to_json", "src/plugin/parse.rs"), ("envelope check", "src/xml.rs:from_mx_xml_envelope_str")],
 ["validate_mx", "parse_mx", "from_mx_xml_envelope_str"])

prop("C13", "A pipeline step changes only its target, and reports it",
 "A pipeline step that succeeds stores its result under its target name in the message's data (parse and validate also their own metadata entry) and changes nothing else; its change record names that location with the value that was there before and the value that is there now, and later conditions and steps see the new state. A step that fails leaves the whole message as it was.",
 ["histories", "inputs"], "all sequences of steps over shared sources and targets (including overwriting, source = target, missing and malformed sources, missing parameters), with the context read between steps",
 "The tests run one fixed step order on fresh messages and look at the targets only.",
 ["src/plugin/parse.rs", "src/plugin/publish.rs", "src/plugin/validate.rs", "src/plugin/generate.rs", "src/plugin/common.rs"],
 [("the four step handlers", "src/plugin/*.rs"), ("context cache invalidation", "src/plugin/*.rs")],
 ["AsyncFunctionHandler::execute", "Message::{data,metadata,get_context_arc}"], [("message context", "data, metadata, temp_data of the message in the pipeline", "dataflow-rs Message"), ("context cache", "shared snapshot handed to conditions", "dataflow-rs Message")])

prop("C14", "Publishing and parsing are inverse",
 "Publishing any message held as JSON and parsing the resulting XML yields the same JSON again, for every message type and regardless of whether the XML is taken from the payload, a string field or a generated-message wrapper. Publishing the parsed JSON again yields the same XML.",
 ["inputs", "histories"], "all 25 message types, all shapes and texts, all source forms, repeated publish/parse cycles through a shared message",
 "The end-to-end tests cover some scenarios of 17 types, compare the document only and round numbers.",
 ["src/plugin/publish.rs", "src/plugin/parse.rs", "src/plugin/common.rs", "src/mx_envelope.rs"],
 [("publish and parse handlers", "src/plugin/publish.rs, src/plugin/parse.rs"), ("content extraction", "src/plugin/common.rs:extract_mx_content")],
 ["publish_mx", "parse_mx"])

prop("C15", "Results do not depend on history or on what runs alongside",
 "The outcome of validating, parsing, writing, publishing or peeking at a message depends only on that message and its configuration: not on what was processed before, in which order, how often, in the same or other threads, nor on which types were seen first.",
 ["schedules", "histories"], "all interleavings of operations on several messages of different types and verdicts over up to 8 threads, all orders, repetitions",
 "Each test processes one message once on one thread; shared state (a cache, a lazily built table) that leaks between messages needs a particular order of particular messages.",
 ["src/validation.rs", "src/mx_envelope.rs", "src/xml.rs", "src/plugin/"],
 [("absence of shared mutable state", "src/validation.rs:validate_pattern, src/message_registry.rs, src/plugin/*.rs")],
 ["all public operations, from several threads and orders"])

prop("C16", "Error collection and parse results account for every error",
 "An error collector holds exactly the errors added to it, in order; its count, its has-errors and its critical flag always agree with what was added, whatever the order of ordinary and critical errors. A parse result is exactly one of success, partial success and failure, and its value, error list, predicates and conversion to a plain result agree with that; converting a validation error to the library's error keeps code, message, element and path.",
 ["histories"], "all sequences of collector operations up to a bound and all parse results",
 "No test touches the collector or parse results.",
 ["src/parse_result.rs", "src/error.rs"], [("ErrorCollector, ParseResult", "src/parse_result.rs"), ("error conversion", "src/error.rs")],
 ["ErrorCollector::*", "ParseResult::*", "MxError::from"], [("errors, has_critical_errors", "what was added", "src/parse_result.rs:ErrorCollector")])

prop("C17", "A bare document means the same as an enveloped one",
 "For all 25 message types, converting a Document without header to JSON yields exactly the document part that parsing the same Document inside an envelope yields, with or without XML declaration, namespace attributes and surrounding whitespace; it is accepted exactly when the enveloped form is. An unsupported type is refused.",
 ["inputs"], "all message types, shapes, texts and structural faults; all framings of the bare document",
 "No test parses a Document-only message.",
 ["src/xml.rs", "src/mx_envelope.rs", "src/plugin/parse.rs"],
 [("xml_to_json_via_document", "src/xml.rs"), ("from_xml", "src/mx_envelope.rs"), ("type detection", "src/plugin/common.rs:extract_message_type_from_xml")],
 ["xml_to_json_via_document", "parse_mx", "MxMessage::from_xml"])

open("/verif/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
