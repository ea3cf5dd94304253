#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the properties are stated)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": s, "where": ", ".join(files)} for s in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

H = ["histories", "inputs"]
p("P01", "Document elements always form a consistent forest",
  "After any sequence of library operations, every element listed as a child names that container as its parent, every element with a parent is listed by that parent exactly once, and no element is its own ancestor. Operations that would create a cycle are refused with an error and change nothing.",
  H, "every sequence of create/add/attach/detach/annotate operations on any document, including nested construction and loading from XML",
  "The tests build a handful of fixed documents; a dangling or doubled parent/child link only shows after particular move sequences, re-attachments or nested constructions.",
  ["src/document.rs", "src/element.rs", "src/store.rs"],
  [("attach/detach", "src/document.rs attach_element, detach_element"), ("adding nested elements", "src/document.rs add_element_to, add_subtree, add_element")],
  ["element store items, parent keys and data lists after each call"], ["element store"])
p("P02", "Element IDs are unique and lookups by ID resolve to the bearer",
  "Looking up an ID returns precisely the element that carries it, for every identified element however it entered the document, and unknown IDs resolve to nothing. An ID is never carried by two elements: adding an element, or loading a document, with an ID already in use is refused with an error rather than silently merged.",
  H, "every order of additions and moves, with and without colliding identifiers, by API or by XML",
  "Tests look up a few hard-coded IDs; index drift needs collisions, nested adds or later moves.",
  ["src/store.rs", "src/document.rs", "src/elementstore.rs"],
  [("ID index maintenance", "src/store.rs Store::add, get_key, id_to_key, get_by_id"), ("key lookup by ID", "src/document.rs get_element_by_id, get_element_key_by_id"), ("parser registering elements", "src/parser.rs parse_elements")],
  ["the ID index and lookup by ID after each call"], ["ID index"])
p("P03", "Moving or detaching an element moves exactly that subtree",
  "Attaching an existing element elsewhere makes it the last child of the new parent and removes it from the old one, detaching makes it parentless, and in both cases its own subtree, the relative order of all other items and every other element stay exactly as they were. Naming a nonexistent parent or child is an error that changes nothing.",
  H, "every attach/detach on every document shape, including re-attaching to the current parent and moving detached elements",
  "A test moves one element once; order and frame violations depend on sibling positions, repeated moves and mixed text/reference items.",
  ["src/document.rs", "src/element.rs"],
  [("attach", "src/document.rs attach_element"), ("detach", "src/document.rs detach_element"), ("data item removal", "src/element.rs remove, index, push")],
  ["all data lists and parents before and after the call"], ["element store"])
p("P04", "Annotating accepts exactly what the FoLiA content model allows",
  "Adding an annotation through the validating interface succeeds only if the receiving element accepts that element type directly or through one of its groups according to the FoLiA specification, and in that case the new element appears as its last child with the given content. Anything else is refused with an error and leaves the document unchanged.",
  ["inputs", "histories"], "every pair of receiving and added element type, and every document state",
  "There are more than ten thousand type pairs; tests touch a few valid ones and almost no invalid ones.",
  ["src/document.rs", "src/specification.rs", "src/types.rs"],
  [("validation", "src/document.rs check_element_addable"), ("entry point", "src/document.rs annotate"), ("content model", "src/specification.rs Properties::new accepted_data"), ("groups", "src/types.rs ElementGroup::elementtypes")],
  ["result and resulting document of annotate / check_element_addable"])
p("P05", "Span annotations land in the one right layer",
  "A span annotation added from its words goes into the layer of its annotation type and set below the closest common structural ancestor of those words that may hold such a layer; added from a structure element it goes into that element's layer. An existing layer of that type and set is reused, otherwise precisely one is created carrying the set (explicit, or the document default), and if no set can be determined or the span is empty the call fails.",
  H, "every choice of words within and across sentences and paragraphs, sets, defaults and previously existing layers",
  "Tests add a span once to one sentence; wrong ancestors, duplicate layers or wrong sets need several sets, repeated additions or words in different parents.",
  ["src/document.rs", "src/select.rs", "src/types.rs"],
  [("placement", "src/document.rs annotate, annotate_span"), ("layer lookup", "src/document.rs get_layer_key, get_span_keys, get_default_set"), ("closest common ancestor", "src/select.rs common_ancestors")],
  ["layers and their spans after annotate / annotate_span"])
p("P06", "Words know precisely the spans that reference them",
  "Once a span with word references is in the document, each referenced element carries a back-reference to the nearest enclosing span annotation, one for each reference and no others, and existing back-references are kept. A reference to a nonexistent ID, without an ID, or outside any span is an error; a layer without a set takes over the set of its spans while keeping its other attributes.",
  H, "every span shape (nested spans, span roles, several references), whether built by API or loaded from XML",
  "The tests check one back-reference in one document; nesting, roles, multiple spans per word and layers without a set are not sampled.",
  ["src/document.rs", "src/parser.rs", "src/types.rs"],
  [("post-processing", "src/document.rs post_add"), ("parser call sites", "src/parser.rs parse_elements"), ("reference items", "src/types.rs DataType::SpanReference")],
  ["span reference items in element data after each call"])
p("P07", "Declarations are unique and resolve sets predictably",
  "There is never more than one declaration for an annotation type and set; declaring an existing one returns it unchanged in identity, leaving out the set resolves to the sole declaration of that type, and a different set yields a new declaration. The default set of a type is defined precisely when it has a single declaration, and existing declarations, their classes and subsets are never lost or altered by later ones.",
  H, "every order of explicit declarations and implicit ones through annotations, with and without sets, aliases and formats",
  "Resolution depends on how many declarations of a type exist at that moment, so the outcome is a function of the history, of which tests sample very few.",
  ["src/document.rs", "src/metadata.rs", "src/store.rs"],
  [("declare", "src/document.rs declare, apply_properties"), ("default lookup", "src/metadata.rs DeclarationStore::get_default_key, Declaration::index_id")],
  ["declaration list, get_default_set, lookup by type and set"], ["declaration store"])
p("P08", "Set, class and subset of an annotation read back as given",
  "The set, class and subset an annotation was given (or inherited: the sole declared set when none is given) are what is reported for it ever after, no matter how many other sets, classes, subsets and features are added later. Other attributes such as confidence, note, times and textclass are equally preserved verbatim.",
  H, "every sequence of annotations mixing types, sets, classes, subsets and attributes",
  "Values are stored as numeric codes per declaration, so an interning slip makes an old annotation silently report another value only after specific later additions.",
  ["src/document.rs", "src/metadata.rs", "src/element.rs", "src/store.rs", "src/attrib.rs"],
  [("encoding", "src/document.rs encode"), ("interning", "src/metadata.rs add_class, add_subset, add_subclass; src/store.rs StringStore::add"), ("decoding", "src/element.rs ReadElement set, class, subset")],
  ["set(), class(), subset(), attributes of all elements after every operation"], ["class and subset stores"])
p("P09", "Annotations are attributed to the right processor",
  "An annotation with an explicit known processor is attributed to it, otherwise to the sole processor of its declaration, otherwise to the active processor, and a processor used this way is registered once with the declaration. Adding processors and subprocessors yields precisely the given provenance tree in order, with each processor under one parent, and never changes earlier attributions.",
  H, "every interleaving of adding, nesting and activating processors, declaring and annotating",
  "Attribution depends on the declaration's processor list and the active processor at that time; tests use a single processor.",
  ["src/document.rs", "src/metadata.rs", "src/element.rs"],
  [("association", "src/document.rs encode, declare, activate_processor"), ("provenance tree", "src/document.rs add_processor, add_subprocessor, attach_processor"), ("default processor", "src/metadata.rs Declaration::default_processor"), ("reading", "src/element.rs processor, annotator, annotatortype")],
  ["processor of each element, declaration processors, provenance chain and tree"], ["provenance store"])
p("P10", "Selection visits every matching item once, in document order",
  "Iterating from any element yields precisely the matching items within the requested depth (direct children, everything, or limited to/except for given types), in depth-first document order, with the starting element first when asked for, and each span annotation once even if reached through several words when span references are followed. It works for documents of any size and never alters the document.",
  ["inputs", "histories"], "every document, starting element, recursion mode, inclusiveness and selector, including very large documents",
  "Tests count matches in one sample document; skipped or doubled items depend on tree shape, recursion mode and span sharing, and size limits never show in small samples.",
  ["src/select.rs"],
  [("depth-first iterator", "src/select.rs SelectIterator::next"), ("deduplication", "src/select.rs already_returned"), ("recursion modes", "src/select.rs Recursion::eval"), ("entry points", "src/select.rs select, select_by_key, select_data, select_data_by_key")],
  ["sequence of items produced by the iterators"])
p("P11", "A query selects exactly the elements meeting all its criteria",
  "An element matches a query if and only if it meets every stated criterion: element type, group, set, class, subset, processor, annotator, annotator type and confidence, each as a specific value, present, absent or unconstrained. Criteria naming a value unknown to the document match nothing, and a combination of selectors matches precisely the union of what each matches.",
  ["inputs", "histories"], "every combination of criteria and unions, over every document",
  "The criteria interact through encoding to document-specific keys; tests try a few single-criterion queries.",
  ["src/query.rs", "src/select.rs"],
  [("encoding of queries", "src/select.rs Selector::from_query, matchable"), ("matching", "src/select.rs Selector::matches, src/query.rs Cmp::matches"), ("union", "src/select.rs Selector::and")],
  ["the set of elements selected"])
p("P12", "Ancestors are reported nearest first and completely",
  "The ancestors of an element are precisely the matching elements on its parent chain, nearest first, for any type, group or set criterion. The common ancestors of several elements are precisely those matching elements that are ancestors of all of them, nearest first, and none if there are none.",
  ["inputs", "histories"], "every element or list of elements of every document and every criterion",
  "Tests query one chain; combinations with no shared ancestor, mixed depths and detached elements are not sampled.",
  ["src/select.rs", "src/element.rs"],
  [("ancestor iterator", "src/select.rs AncestorIterator::next, ancestors_by_key"), ("common ancestors", "src/select.rs common_ancestors"), ("shortcuts", "src/element.rs get_ancestor, get_ancestors, get_ancestor_by_group, get_ancestors_by_group, get_parent")],
  ["sequences returned by the ancestor functions"])
p("P13", "Features belong to their annotation and are found by subset",
  "A feature added below an annotation takes that annotation's set, and its subset and class read back as given; asking an annotation for its features of a given subset, or of any subset, returns precisely those of its own set among its direct children, in order. A feature cannot be added where there is no annotation to belong to; that is an error, not a crash.",
  H, "every annotation type, number of declared sets, subset/class values and order of addition, through the API, feature elements or shortcut attributes in XML",
  "Tests use one feature in a document with one set; inheritance and per-declaration subset codes only go wrong with several sets or subsets.",
  ["src/document.rs", "src/element.rs", "src/metadata.rs", "src/parser.rs"],
  [("feature encoding", "src/document.rs encode (Feature branch)"), ("retrieval", "src/element.rs get_features, get_feature"), ("attribute shortcuts", "src/parser.rs parse_attributes")],
  ["results of get_features/get_feature and class/subset/set of features"])
p("P14", "Text of an element is composed as FoLiA prescribes",
  "The text of an element is the text of its structural, correction (new or current) and span content in order, joined by each part's own delimiter (honouring the no-space mark unless tokenisation is to be retained), or if there is none, its own text content of the requested text class, in which markup is flattened and non-printable elements are left out. If there is no such text the call reports an error rather than an empty or unrelated string.",
  ["inputs", "histories"], "every document, element, text class and tokenisation setting",
  "Composition is recursive over element types, delimiters and space marks; tests cover a few sentences.",
  ["src/text.rs", "src/specification.rs"],
  [("composition", "src/text.rs text_by_key"), ("delimiters", "src/text.rs get_textdelimiter"), ("entry points", "src/text.rs text; src/element.rs Display")],
  ["returned string or error"])
p("P15", "Saving and reloading a document loses nothing",
  "Serialising any document and loading the result gives the same document: same elements in the same order with the same types, identifiers, attributes, text, comments, sets, classes, subsets, processors and span references, and the same declarations and provenance, at any indentation. Saving the reloaded document and loading it again changes nothing further. (Elements detached from the body, processors outside the provenance chain and classes no element uses are not part of the saved document; adjacent text items are one text in XML.)",
  H, "every document that can be built through the API or loaded from XML, for every indentation",
  "Serialisation leaves out defaults and the parser infers them, so losses depend on the number of declared sets and processors and on element shapes not in the samples.",
  ["src/serialiser.rs", "src/parser.rs", "src/document.rs"],
  [("serialiser", "src/serialiser.rs xml, xml_elements, xml_declarations, xml_provenance"), ("parser", "src/parser.rs parse, parse_elements, Declaration::parse, Processor::parse"), ("default mask", "src/metadata.rs default_mask")],
  ["document state after xml() followed by from_str()"])
p("P16", "Serialised XML is well-formed and says what the document says",
  "The XML produced for a document or a single element is well-formed and, read by any XML parser, contains precisely the document's elements with matching tags, nesting, order, attribute values, text and comments. Special characters in any value survive, and sets and processors are written wherever they cannot be inferred from the declarations.",
  ["inputs", "histories"], "every document and starting element, with arbitrary characters in values, at any indentation",
  "Tests compare a few strings; nesting errors depend on the shape around empty elements and back-references, and escaping on the characters used.",
  ["src/serialiser.rs", "src/element.rs", "src/attrib.rs"],
  [("element serialisation", "src/serialiser.rs xml_elements"), ("single elements", "src/element.rs ReadElement::xml"), ("attribute formatting", "src/attrib.rs Display, to_string")],
  ["the XML text, parsed by an independent XML parser"])
p("P17", "Loading XML builds precisely the document it describes",
  "Loading well-formed FoLiA XML yields one element per XML element with the type its tag names, in document order under the right parent, with every attribute, text (character references, entities and CDATA decoded) and comment preserved, and declarations and processors as declared. The result does not depend on the XML notation chosen: namespace prefixes, empty-element tags, quoting, whitespace between elements, processing instructions and elements of other namespaces.",
  ["inputs"], "every well-formed FoLiA document in the supported subset, in any notation",
  "The input space is unbounded; the tests parse three sample documents.",
  ["src/parser.rs", "src/attrib.rs", "src/types.rs"],
  [("document parser", "src/parser.rs parse, parse_elements"), ("attributes", "src/attrib.rs Attribute::parse, src/parser.rs parse_attributes"), ("tags", "src/types.rs ElementType::from_str")],
  ["document state after from_str / from_file"])
p("P18", "Damaged input is rejected, never half-loaded and never fatal",
  "Loading input that ends before its body is complete, whose tags do not match, or that uses unknown elements, unknown attributes of elements or processors, undeclared or wrong namespaces, unknown declarations or values that can not be read (numbers, times, references, repeated attributes) reports an error instead of returning a partial document. No input makes the library crash or loop forever.",
  ["inputs", "fault_sequences"], "truncation at every position and arbitrary corruption of any FoLiA document",
  "There is a cut-off point for every byte of every document, and crashes hide in rarely taken error branches; the tests only load valid documents.",
  ["src/parser.rs", "src/attrib.rs", "src/document.rs"],
  [("parser error handling", "src/parser.rs parse, parse_elements, ElementData::parse, Declaration::parse, Processor::parse"), ("attribute values", "src/attrib.rs Attribute::parse")],
  ["Ok/Err/panic/timeout of from_str and from_file"])
p("P19", "Building nested elements equals adding them one by one",
  "Adding an element constructed with nested children, text and word references leaves the document in the same state as adding the element and then each of its parts in order: same children at the same positions with correct parents, identifiers, declarations, classes and references. This holds for any nesting depth and for elements added without a parent.",
  ["inputs", "histories"], "every nested construction of every depth and mixture of text, elements and references",
  "Tests nest one level with a single kind of child; deeper levels take different code paths.",
  ["src/document.rs", "src/element.rs"],
  [("nested additions", "src/document.rs add_subtree, add_element_to, add_element"), ("builders", "src/element.rs add_element, with, with_text, with_span")],
  ["document state after adding a nested element"])
p("P20", "Document metadata survives loading and saving",
  "The document ID, metadata type and source, every metadata field (whatever its characters, empty values included) and every submetadata block with its own type, source and fields are available after loading precisely as written in the XML, fields of one block never appear in another, and saving and reloading preserves them all.",
  ["inputs", "histories"], "every set of metadata and submetadata fields",
  "Tests read one native metadata field; blocks, types, empty and special values are not sampled.",
  ["src/parser.rs", "src/serialiser.rs", "src/metadata.rs"],
  [("parsing", "src/parser.rs parse (metadata loop)"), ("serialising", "src/serialiser.rs xml_metadata")],
  ["metadata and submetadata after from_str, and after xml()+from_str"])
p("P21", "The FoLiA vocabulary is complete and consistent",
  "Every element type has the tag, annotation type, groups, accepted content, layer and text properties of the FoLiA specification the library implements; tags and types translate both ways without loss, as do annotation types and their names, and features, layers and groups agree with one another. Unknown tags and names are refused.",
  ["configurations", "inputs"], "all element types, groups, annotation types, attributes and their combinations",
  "Tests exercise about a dozen of the 120 element types; a wrong table entry affects only documents that use it.",
  ["src/types.rs", "src/specification.rs", "src/attrib.rs"],
  [("tags", "src/types.rs ElementType::as_str, from_str"), ("annotation types", "src/types.rs AnnotationType::as_str, from_str, elementtype, layertype; ElementType::annotationtype"), ("properties", "src/specification.rs Properties::new"), ("attribute names", "src/attrib.rs Into<&str> for AttribType, Attribute::parse")],
  ["complete dump of the tables through the public API"])
p("P22", "A refused operation leaves the document as it was",
  "When an operation reports an error, the document (elements, identifiers, back-references, declarations, processors) is the same as before the call and remains fully usable, so the caller can correct the request and retry it.",
  ["histories", "fault_sequences"], "every failing add, annotate, attach, detach, declare and class registration in every state",
  "Each failure can occur at several points of a multi-step operation, after some of its effects; tests have practically no failing calls.",
  ["src/document.rs", "src/store.rs"],
  [("multi-step additions", "src/document.rs check_addition, add_subtree, annotate, annotate_span, post_add"), ("attach", "src/document.rs attach_element, detach_element, attach_processor")],
  ["document state before and after a call that returns an error"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
