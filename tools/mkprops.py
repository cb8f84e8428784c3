import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m) for n,m in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title)); P.append(d)
R='packages/drafter/src/refract/'
D='packages/drafter/src/'
M='packages/apib-parser/src/markdown-parser/'
p('E01','Copies of element trees are deep, faithful and independent',
 "Copying, assigning, moving or cloning an element tree (or its meta, its attributes, or its content container) yields a tree with the same type, name, meta, attributes, emptiness and content in the same order, and leaves a copied source unchanged. Any later modification of one tree is never visible through another. Every tree is released exactly once: no use of freed memory and no leak, whatever the history of operations.",
 ['histories','inputs'],'all histories of construct / copy / move / assign / clone / mutate / destroy over element trees of every kind and nesting',
 'the tests copy one flat fixture per element kind and look at it once; aliasing and ownership bugs need a mutate-after-copy history on nested trees',
 [R+'Element.h',R+'InfoElements.cc']+[R+'dsd/%s.cc'%x for x in 'Array Object Enum Extend Member Option Select Holder Ref String Number Bool Null'.split()],
 [('Element copy/move/clone',R+'Element.h'),('InfoElements copy and clone',R+'InfoElements.cc'),('copy-and-swap of each data structure',R+'dsd/*.cc')],
 [('slots','the live element trees of a client, as values')],['return of every public element operation'])
p('E02','Selective cloning copies exactly the requested parts',
 "Cloning an element with a set of flags yields an element of the same type that carries the source's meta, attributes, content and name exactly when the corresponding flag is given, and otherwise the defaults of a fresh element (no meta, no attributes, no content, the type's own name). With the flag that excludes the identifier, the clone has all meta entries in order except those keyed `id`. The source is never changed.",
 ['inputs','configurations'],'every flag combination (2^5) times every element shape',
 'tests use cAll and one or two combinations on flat elements',
 [R+'Element.h',R+'ElementIfc.h',R+'InfoElements.cc'],[('Element::clone(flags)',R+'Element.h')])
p('E03','Element equality is an order-sensitive structural equivalence',
 "Two elements compare equal exactly when they are of the same kind, are both unset or both set, have equal attributes, equal meta and (when set) equal content, compared recursively and in order; the element name does not take part. Equality is therefore reflexive, symmetric and transitive, inequality is its negation, and an element always equals its full clone.",
 ['inputs'],'all pairs and triples of element trees',
 'tests compare a few hand-built pairs; an asymmetric or over-tolerant comparison needs unusual pairs (differing only in depth, order, one null child, emptiness)',
 [R+'Utils.cc']+[R+'dsd/%s.cc'%x for x in 'Array Object Enum Extend Member Option Select Holder Ref String Number Bool Null'.split()],
 [('operator== on IElement and InfoElements',R+'Utils.cc'),('operator== of each data structure',R+'dsd/*.cc')])
p('E04','Comparison ignoring source maps tolerates nothing else',
 "The tolerant element comparison treats attributes and meta as unordered maps, leaves out exactly the keys its caller asks to ignore (by default the `sourceMap` attribute), and is otherwise as strict as full equality and also sensitive to the element name. It is symmetric, and elements of different kinds are never equal.",
 ['inputs','configurations'],'all pairs of elements, all permutations of their attributes and meta, and all ignore sets',
 'tests compare two or three hand-written elements',
 [D+'ElementComparator.h'],[('Equal / InfoElementsComparator',D+'ElementComparator.h')])
p('E05','Meta and attributes form an insertion-ordered map',
 "Setting a key of an element's meta or attributes replaces the value of that key in place if it is present and appends it otherwise, so keys set through the interface stay unique and iteration follows first insertion. Look-up, erasing and claiming act on exactly the named key: erasing removes it, claiming removes it and hands over the very element that was stored (nothing if absent), and every other entry keeps its value and order.",
 ['histories','inputs'],'all sequences of set / find / erase / claim / clear / copy / append over any keys',
 'tests perform a handful of fixed sequences with at most a few keys',
 [R+'InfoElements.cc',R+'InfoElements.h'],[('set/find/erase/claim',R+'InfoElements.cc')],[('elements','ordered key to element list')])
p('E06','Element containers behave as sequences under every edit history',
 "The array, extend, option, select and object containers hold their children as a sequence: inserting puts the child at the given position and yields it, erasing a position or a range removes exactly that and yields what follows, clearing empties, and size, emptiness and iteration agree with the children held. Children not touched by an operation keep their identity, value and relative order.",
 ['histories','inputs'],'all sequences of insert / erase / range-erase / push / clear at every position',
 'tests insert and erase at one or two positions of short fixed sequences',
 [R+'dsd/Traits.h']+[R+'dsd/%s'%x for x in ('Array.cc','Array.h','Extend.cc','Option.cc','Select.cc','Object.cc','Utils.h')],[('container_traits',R+'dsd/Traits.h'),('insert/erase',R+'dsd/*.cc')])
p('E07','An object never keeps two members of one name when they are added',
 "Appending a member whose key is a set string to an object first removes an existing member of that name, so the new member is the last one and names stay unique; all other children keep their order, and children without a string key are never removed. Looking a member up by name yields the first member with exactly that key, or nothing.",
 ['histories','inputs'],'all histories of adding members, non-members and keyless members to an object',
 'tests add two members at most',
 [R+'dsd/Object.cc',R+'dsd/Object.h'],[('Object::push_back / addMember / find',R+'dsd/Object.cc')],[('elements_','ordered children of the object')])
p('E08','Unset and set content are distinguished and defaults are fixed',
 "A new element is unset and carries the name of its kind; giving it content, even empty or default content, makes it set and it stays set, and constructing it from a value stores exactly that value. Naming an element changes nothing but its name, and exactly the documented base names (array, boolean, enum, extend, generic, member, null, number, object, option, ref, select, string) are reserved.",
 ['histories','inputs'],'all kinds, all constructors, all names',
 'tests check each default once; reserved-name look-up is probed with a few strings',
 [R+'Element.h',R+'Element.cc',R+'dsd/Number.cc',R+'dsd/String.h',R+'dsd/Bool.h',R+'dsd/Ref.h',R+'dsd/Member.cc',R+'dsd/Holder.h',R+'dsd/Enum.h'],
 [('Element constructors, set, element(name)',R+'Element.h'),('isReserved',R+'Element.cc')])
p('E09','Merging an inheritance chain lets the latest definition win',
 "Merging a chain of element definitions yields one element of their common kind in which later definitions override earlier ones: meta entries except id, prefix and namespace and all attributes are replaced by key, a set primitive value replaces the previous one, object members of the same name (also inside a choice) and mixins of the same type are replaced in place while new members are appended in order, items of another list are appended to those of a list that has a value (a list without one keeps none), and enumerations are united with repeated ones moved to the end. Definitions of different kinds, or of a kind that cannot be merged, are rejected with a logic error; missing definitions are skipped; an empty chain yields nothing; the chain itself is never changed.",
 ['inputs','programs'],'all chains of definitions of every kind, set or unset',
 'tests merge a few two-element chains; overriding inside choices, enumerations, unset bases and three-step chains are not reached',
 [R+'dsd/Extend.cc'],[('Extend::merge',R+'dsd/Extend.cc')])
p('E10','The type registry keeps one definition per unreserved name',
 "The registry accepts a definition exactly when it carries a string id that is neither reserved nor already taken: a missing or non-string id and a reserved id are errors, a taken id is refused, and in each of these cases the registry is unchanged. A look-up yields exactly the definition registered under that name and not removed since (base types included from the start), removal reports whether something was removed, and clearing forgets everything.",
 ['histories','inputs'],'all histories of add / find / remove / clear over any names',
 'the registry has no direct test in the build',
 [R+'Registry.cc',R+'Registry.h'],[('add/find/remove/clear',R+'Registry.cc')],[('types_','name to definition')])
p('E11','Finding the root ancestor ends at the root of the inheritance chain',
 "Starting from a registered name, the root ancestor is the last definition reached by following parent names through the registry: the first one whose parent is a base type, is not registered or is itself; an unregistered name has no ancestor. The search terminates for every registry content, including chains that cycle.",
 ['inputs','histories'],'all registries (as parent functions) and all start names',
 'not tested',
 [R+'Registry.cc'],[('FindRootAncestor',R+'Registry.cc')])
p('E12','Expansion resolves a named type to its full inheritance chain',
 "Expanding an element typed by a named type yields an extend element listing, from the root definition down, a copy of each definition on the inheritance chain, each recursively expanded, stripped of its id and marked with the name it came from, followed by the element's own content without its id; the id moves to the extend element. Nested members, array items, enumerations, choices, member keys and values are expanded in place with everything else preserved, and neither the input nor the registry is changed.",
 ['inputs','programs'],'all type graphs in the registry and all elements using them at any nesting',
 'expansion is not exercised by the tests that build here; the remaining fixtures cover a few graphs',
 [R+'ExpandVisitor.cc',R+'IsExpandableVisitor.cc'],[('ExpandNamedType / GetInheritanceTree / ExpandMembers',R+'ExpandVisitor.cc')])
p('E13','Expansion terminates on circular types and reports circular mixins',
 "Expansion terminates for every registry: a type that contains itself through members expands to a marker of its root ancestor's kind that names the type and does not descend further, and an inheritance cycle contributes an empty chain. A mixin reference is resolved by attaching the expanded referenced type, with its id turned into a reference mark; an unknown one is left unresolved, and a mixin that reaches itself is reported as an MSON error naming the type.",
 ['inputs','programs'],'all registries, including every cyclic one, over small sets of named types',
 'cyclic graphs are covered by a few fixtures that do not build here',
 [R+'ExpandVisitor.cc',R+'Registry.cc'],[('Context::members stack, ExpandReference',R+'ExpandVisitor.cc')],[('members','types being expanded')])
p('E14','An element is expandable exactly when it depends on a named type',
 "An element is reported expandable exactly when it, or an element nested in its content (for an enumeration also its enumerations; what a holder contains does not count), is a reference or bears a name that is not reserved. An element that is not expandable expands to nothing or to an equal copy of itself.",
 ['inputs'],'all element trees',
 'not tested directly',
 [R+'IsExpandableVisitor.cc',R+'ExpandVisitor.cc'],[('IsExpandable',R+'IsExpandableVisitor.cc')])
p('E15','Visitors are dispatched to the kind of the element, and casts agree',
 "Visiting any element calls the visitor once, with the handler of the element's own kind and the element itself, and hands back the handler's result; a type query answers that kind. A checked cast succeeds exactly for the element's kind and yields the same element, and for nothing yields nothing.",
 ['inputs'],'all 13 element kinds, set or unset, through every visiting interface',
 'tests visit a few kinds',
 [R+'Utils.h',R+'Visitor.h',R+'TypeQueryVisitor.h',R+'TypeQueryVisitor.cc',R+'Element.h'],[('visit / Visit / VisitBy',R+'Utils.h'),('TypeQueryVisitor',R+'TypeQueryVisitor.cc')])
p('E16','Traversal visits each nested element exactly once, parents first',
 "Recursive traversal calls the visitor for the element and every element nested in its content exactly once, parents before children and siblings in order (a member's key before its value), never entering meta or attributes nor what an enumeration or a holder contains, and skipping missing children. Child traversal calls it for exactly the direct children in order. A filter over either selects exactly the visited elements that satisfy its query, in the order of the visit.",
 ['inputs'],'all element trees, both strategies, all queries by name',
 'tests traverse three small trees',
 [R+'Iterate.h',R+'FilterVisitor.h',R+'Query.cc',R+'Visitor.h'],[('Iterate<Recursive>/<Children>',R+'Iterate.h'),('FilterVisitor',R+'FilterVisitor.h')])
p('E17','Cardinality counts the values a type admits',
 "Cardinalities form a commutative semiring in which empty is the neutral of addition and absorbs multiplication and open absorbs everything else; counts too large to represent are open. The size of an element follows: one for a fixed value, two for a boolean, open for unrestricted strings, numbers, arrays and objects, the sum over options of a choice and over enumerations, the product over members of a fixed object or items of a fixed array, one more if nullable, and the size of the merged or referenced type for extends and resolved references.",
 ['inputs'],'all element trees with all type attributes',
 'tests probe a few shapes; the size tests are not even linked in this build',
 [R+'Cardinal.h',R+'ElementSize.cc',R+'ElementUtils.cc'],[('cardinal arithmetic',R+'Cardinal.h'),('sizeOf',R+'ElementSize.cc')])
p('E18','The value shown for an element follows a fixed order of precedence',
 "The value of an element is its own content if set, else its first sample, else its default, else nothing if it is nullable, else itself; for an enumeration it is its sample, then its default, then its own value, then the first usable enumeration. Being fixed is handed on to every object and null and to every array and primitive that defines a value by content, sample or default; to a member or an enumeration as to its value, or if it has none exactly when it has a default; to a merged type as to the merge; and never to a variable member. Samples and defaults of another kind than the element are not used, and the same inputs always select the same element.",
 ['inputs'],'all combinations of content, samples, default, nullable and enumerations for every kind',
 'the tests do not reach the precedence rules',
 [R+'VisitorUtils.h',R+'ElementUtils.cc'],[('GetValue / GetSample / GetDefault',R+'VisitorUtils.h')])
p('E19','Type attributes are queried and added without disturbing others',
 "An element is reported to carry a type attribute exactly when its list of type attributes contains a string of that name, to be variable exactly when its `variable` flag is a true boolean, and to be a literal exactly when it is a set string, number or boolean or is marked fixed. Appending a value to a list-valued attribute makes exactly that value present once: it creates the list if it is missing, appends at the end if the value is missing, and changes nothing otherwise.",
 ['inputs','histories'],'all attribute lists and all appended values',
 'tests only ever append the value "fixed"',
 [R+'VisitorUtils.h',R+'VisitorUtils.cc',R+'InfoElementsUtils.h'],[('HasTypeAttribute / IsVariableProperty / IsLiteral',R+'VisitorUtils.h'),('AppendInfoElement',R+'InfoElementsUtils.h')])
p('E20','Members are found by key and keys have one spelling',
 "Looking up a member of an object by key yields the first member whose key is a string equal to it, or nothing. The spelling of a member's key is the string itself, for an inherited key the string of the merged key or else its sample or default, and the empty string when there is none; a description is reported exactly when meta holds a string of that name.",
 ['inputs'],'all objects and all kinds of keys',
 'tests look up one or two string keys',
 [R+'VisitorUtils.cc',R+'ComparableVisitor.cc',R+'ComparableVisitor.h'],[('FindMemberByKey / GetKeyAsString / GetDescription',R+'VisitorUtils.cc')])
p('E21','The textual dump of an element shows its whole structure',
 "The debugging dump of an element lists, in order and indented by depth, the name, meta, attributes except source maps, kind and content of the element and of every element nested in it, and nothing else.",
 ['inputs'],'all complete element trees',
 'the dump is not tested',
 [R+'PrintVisitor.cc',R+'PrintVisitor.h'],[('PrintVisitor',R+'PrintVisitor.cc')])
p('S01','Byte ranges convert to character ranges by counting characters',
 "For every valid UTF-8 document and every byte range that starts and ends at character boundaries, the converted range starts at the number of characters before it and spans the number of characters in it, whether converted directly or through the character index, and the two agree; a range reaching past the end is clipped to the document. The index maps each byte to the ordinal of the character it belongs to. On documents and ranges that are not well-formed nothing is read or written out of bounds.",
 ['inputs'],'all documents of 1- to 4-byte characters and all ranges',
 'conversion is only tested through the parser, which does not build here, on a few documents',
 [M+'ByteBuffer.cc',M+'ByteBuffer.h'],[('BuildCharacterIndex / BytesRangeSetToCharactersRangeSet',M+'ByteBuffer.cc')])
p('S02','Range sets describe the same bytes in order after merging',
 "Appending one range set to another keeps the described bytes in order, coalescing exactly when the first appended range begins where the last present range ends. Mapping a range set onto a document yields the concatenation of the bytes of its ranges in order; a range exceeding the document by the one newline the parser may add is clipped and ends the text, and one exceeding it further yields the empty text.",
 ['inputs','histories'],'all sequences of appends and all documents',
 'not tested directly',
 [M+'ByteBuffer.h',M+'ByteBuffer.cc'],[('RangeSet::append',M+'ByteBuffer.h'),('MapBytesRangeSet',M+'ByteBuffer.cc')])
p('S03','Line and column positions identify the annotated characters',
 "The line index of a document lists 0 and the character position following each newline. For every character range within the lines of the document, the reported start is the 1-based line and column of its first character and the reported end is the line and column of its last character; a range with a character after the last newline is reported to end at column 1 of the last line.",
 ['inputs'],'all documents and all ranges within them',
 'tests use one fixed newline index and a dozen ranges',
 [D+'SourceMapUtils.cc',D+'SourceMapUtils.h'],[('GetLinesEndIndex / GetLineFromMap',D+'SourceMapUtils.cc')])
p('S04','The markdown tree keeps type, text, data, source map and structure',
 "A markdown node keeps what it was given; copying or assigning a node copies its type, text, data, source map, parent link and the whole subtree of children, after which changes to either are not visible in the other. A node reports a parent exactly when one was set and yields that node, and asking for a missing one is an error.",
 ['histories'],'all histories of building, copying, assigning and editing trees',
 'the markdown tests do not build here, and copying is not tested',
 [M+'MarkdownNode.cc',M+'MarkdownNode.h'],[('copy construction and assignment',M+'MarkdownNode.cc')])
p('U01','UTF-8 decoding is exact on valid text and safe on the rest',
 "Decoding a valid UTF-8 sequence yields its code points in order, each advancing by exactly its encoded length, and encoding a code point and decoding it gives it back. An invalid sequence (truncated, overlong, surrogate, beyond U+10FFFF, stray or missing continuation byte) yields U+FFFD, always makes progress and never reads or moves beyond the end.",
 ['inputs'],'all byte sequences',
 'tests decode fixture files of valid text and about ten malformed strings',
 [D+'utils/Utf8.h'],[('decode_one / encode / input_iterator',D+'utils/Utf8.h')])
p('M01','Media types are classified case-insensitively by syntax',
 "A media type is JSON exactly when its type is `application` and its structured-syntax suffix, or without one its subtype, is `json`, and is a JSON schema exactly when it is `application/schema+json`, in each case ignoring letter case. Parameters never matter, and no other media type qualifies.",
 ['inputs'],'all types, subtypes, suffixes and parameters',
 'tests check a handful of media types',
 ['packages/apib/src/MediaType.cc','packages/apib/include/apib/syntax/MediaType.h'],[('isJSON / isJSONSchema','packages/apib/src/MediaType.cc')])
p('M02','Serialised media types can be read back unchanged',
 "A media type with a type and a subtype is written as type/subtype, then its suffix after a plus sign, then each parameter with a non-empty name in order; without type or subtype nothing is written. A parameter value is written bare exactly when it contains no special, space or control character and quoted otherwise, with quotes, backslashes and carriage returns escaped, so that reading the text back yields the same value.",
 ['inputs'],'all media types with any parameters and values',
 'tests serialise a few fixed media types',
 [D+'backend/MediaTypeS11n.cc'],[('operator<<',D+'backend/MediaTypeS11n.cc')])
p('R01','Reports show every annotation once, in order, at the right place',
 "Reporting a parse result prints an OK line exactly when there is no error and then, for each annotation among its direct children and in order, one line with its class, code, message and source ranges: character offsets and lengths, or line and column positions of the same ranges on request. Nothing else is printed and the result is not changed.",
 ['inputs','configurations'],'all parse results, with any number of annotations and ranges, in both modes',
 'reporting is not tested',
 [D+'reporting.cc',D+'reporting.h'],[('PrintReport / AnnotationToString',D+'reporting.cc')])
p('R02','Reports accumulate warnings and keep the latest error',
 "Adding a report to another leaves the first with all its warnings followed by all warnings of the second, in order, and with the error of the second; the second is not changed. Of the warnings a conversion gives, each that differs from all earlier ones in code, message or any place is kept, in order, and repeated ones are not. Copies of annotations and reports carry message, code and location and are not affected by later changes. Printing a report shows its error (or OK when there is none) and then each warning, with prefix, code, message and ranges, each exactly once and in order.",
 ['histories','inputs'],'all sequences of adding and copying reports with any number of warnings and ranges',
 'not tested directly',
 ['packages/apib-parser/src/snowcrash/SourceAnnotation.h',D+'reporting.cc'],[('Report::operator+= / SourceAnnotation copying','packages/apib-parser/src/snowcrash/SourceAnnotation.h'),('PrintReport / PrintAnnotation',D+'reporting.cc'),('ConversionContext::warn',D+'ConversionContext.cc')])
p('X01','Expressions match leftmost-longest and captures agree with matches',
 "Matching a text against an extended regular expression succeeds exactly when the expression describes some part of the text; capturing succeeds on the same inputs and yields as many entries as asked for: the whole leftmost-longest match, then each group's text, empty for groups that took no part; the first capture alone is the text of the first group. An empty text, an empty expression and an expression that is not valid never match.",
 ['inputs'],'all expressions and texts',
 'tests match a few fixed expressions',
 ['packages/apib-parser/src/snowcrash/posix/RegexMatch.cc','packages/apib-parser/src/snowcrash/RegexMatch.h'],[('RegexMatch / RegexCapture / RegexCaptureFirst','packages/apib-parser/src/snowcrash/posix/RegexMatch.cc')])
p('O01','Parse and serialise options are independent of each other',
 "Each option reads back as last set and setting one never changes another; missing options mean the documented defaults (name not required, bodies and schemas generated, no source maps, YAML).",
 ['histories','configurations'],'all histories of setting options, in every combination',
 'tests set single options',
 [D+'options.cc',D+'options.h'],[('option accessors',D+'options.cc')])
p('J01','Serialised values are well-formed JSON that reads back the same',
 "Writing a value tree as JSON, compact or indented, yields a well-formed JSON text that reads back to the same tree: same kinds, same strings (including quotes, backslashes, control characters and any UTF-8), same numbers, members and items in order. Compact output contains no whitespace outside strings.",
 ['inputs'],'all value trees and strings',
 'the serialisation tests do not build here and compare a few literals',
 [D+'utils/so/JsonIo.cc',D+'utils/so/Value.h'],[('json_printer',D+'utils/so/JsonIo.cc')])
p('J02','Serialised values are well-formed YAML that reads back the same',
 "Writing a value tree as YAML yields a text whose indentation and escapes read back to the same tree: same kinds, keys, strings and numbers, members and items in order; characters that YAML does not allow to be printed are escaped.",
 ['inputs'],'all value trees, keys and strings',
 'the serialisation tests do not build here and compare a few literals',
 [D+'utils/so/YamlIo.cc'],[('yaml_printer / escape_yaml_string',D+'utils/so/YamlIo.cc')])
p('J03','Value objects keep keys unique and compare as maps',
 "Adding a property to a value object under a key that exists replaces its value in place, and otherwise appends it; adding an item to a unique array appends it exactly when no equal item is present. Values are equal when of the same kind with equal contents, objects irrespective of member order and arrays in order.",
 ['histories','inputs'],'all histories of additions and all pairs of values',
 'not tested directly',
 [D+'utils/so/Value.cc',D+'utils/so/Value.h'],[('emplace_unique / find / operator==',D+'utils/so/Value.cc')])
p('J04','Generated example bodies follow the data structure',
 "The JSON value generated for an element contains exactly the members and items its data structure prescribes: set content, samples or defaults in that order of precedence, inherited and mixed-in members in order with later ones overriding, the first option of each choice, one entry per key, null for nullable members without a value, and scalars of the declared kind. The element is not changed and generation is deterministic.",
 ['inputs','programs'],'all resolved element trees',
 'the generator is not built here; its tests cover a few dozen structures',
 [R+'JsonValue.cc',R+'ElementUtils.cc',R+'JsonUtils.cc'],[('generateJsonValue',R+'JsonValue.cc')])
p('J05','Generated JSON schemas admit exactly what the type attributes say',
 "The JSON schema generated for an element declares the draft and the kind of the element, lists every member once under properties (or pattern properties when its key is variable), requires exactly the members marked required or made so by fixed, forbids others exactly for fixed and fixed-type objects, admits null exactly for nullable elements, restricts fixed values and enumerations to their values, and offers each option of a choice. The element is not changed and generation is deterministic.",
 ['inputs','programs'],'all resolved element trees with all type attributes',
 'the generator is not built here; its tests cover a few dozen structures',
 [R+'JsonSchema.cc',R+'ElementUtils.cc',R+'JsonUtils.cc'],[('generateJsonSchema',R+'JsonSchema.cc')])
p('J06','Serialised API Elements carry every part of the element tree',
 "Serialising an element tree yields, for each element, its name, its meta and attributes when there are any, and its content when set, recursively and in order; source maps are left out exactly when not requested, annotations excepted, and nothing else is dropped or added.",
 ['inputs','configurations'],'all element trees, with and without source maps',
 'the serialiser is not built here; fixtures cover whole documents only',
 [R+'SerializeSo.cc'],[('serialize',R+'SerializeSo.cc')])
A='packages/apib-parser/src/snowcrash/'
p('P01','A blueprint becomes the API Elements tree its outline prescribes',
 "Parsing an API Blueprint yields one API category whose groups, resources, transitions and copy texts are nested and ordered exactly as the headers and text of the document are, under the names, methods and URI templates written there; metadata lines come first, as metadata. Nothing that the document says is dropped, moved or repeated without a warning, and a document of well-formed sections parses without error.",
 ['inputs'],'all documents: every arrangement of headers, text, metadata and lists',
 'none of the parser tests builds here; the fixtures are single documents in which each section appears in one or two places',
 [A+'BlueprintParser.h',A+'ResourceGroupParser.h',A+'ResourceParser.h',A+'ActionParser.h',A+'SectionParser.h',A+'Section.h',D+'RefractAPI.cc',D+'ConversionContext.cc'],
 [('SectionParser: signature, description, content, nested sections',A+'SectionParser.h'),('section recognition',A+'*Parser.h'),('BlueprintToRefract',D+'RefractAPI.cc')])
p('P02','Every response is paired with the requests it answers',
 "Below an action, a run of requests followed by a run of responses yields one transaction for each pair of them, in order; responses that no request precedes and requests that no response follows form a transaction of their own with an empty counterpart. Methods, URI, names and status codes of the pair are those written, and no payload is lost, repeated or attached to another action.",
 ['inputs'],'all sequences of requests and responses, below all kinds of actions',
 'none of the parser tests builds here; the fixtures have a few fixed sequences',
 [A+'ActionParser.h',A+'PayloadParser.h',D+'RefractAPI.cc'],[('ActionParser::nextRequest / transaction examples',A+'ActionParser.h'),('TransactionToRefract',D+'RefractAPI.cc')])
p('P03','Payloads carry exactly the headers, bodies and schemas written',
 "A request, response or model carries its description, its headers in order (those of its resource, then those of its action, then its own, beginning with its media type as Content-Type), its body and its schema, each with exactly the text written, whether given as code block, fenced block, plain text or nested section. Media types on assets are the declared ones in canonical form.",
 ['inputs'],'all payloads: every combination and order of headers, body, schema, text and media type',
 'none of the parser tests builds here; the fixtures have one payload of each style',
 [A+'PayloadParser.h',A+'HeadersParser.h',A+'AssetParser.h',A+'CodeBlockUtility.h',D+'RefractAPI.cc','packages/drafter/src/backend/MediaTypeS11n.cc'],
 [('PayloadParser',A+'PayloadParser.h'),('HeadersParser',A+'HeadersParser.h'),('PayloadToRefract',D+'RefractAPI.cc')])
p('P04','Model references stand for the model they name',
 "A payload or resource that refers to a model by name is given that model's headers, body, schema, description and parameters, wherever the model is defined in the document, before or after. A name no model has is an error and a name two models share is reported; other payloads are not affected.",
 ['inputs'],'all documents with models and references in any order',
 'none of the parser tests builds here; the fixtures refer once, to one model',
 [A+'PayloadParser.h',A+'BlueprintParser.h',A+'ResourceParser.h',A+'ModelTable.h',A+'Section.h'],[('model table and lazy reference resolution',A+'BlueprintParser.h')])
p('P05','URI parameters keep everything said about them, in either notation',
 "Each URI parameter carries its name, description, type, whether it is required, default, example and enumerated values as written, in the present and in the old notation; of several of one name the last counts. Combinations that contradict each other (required with default, values without the default, parameters unknown to the URI) are warned about and others are not.",
 ['inputs'],'all combinations of what a parameter can say, in both notations, below resources and actions',
 'none of the parser tests builds here; the fixtures have a few fixed combinations',
 [A+'ParametersParser.h',A+'ParameterParser.h',A+'MSONParameterParser.h',A+'ValuesParser.h',D+'RefractAPI.cc'],[('ParameterParser / MSONParameterParser',A+'ParameterParser.h'),('ParametersToRefract',D+'RefractAPI.cc')])
p('P06','Every problem is reported once, with its code and place',
 "Text or sections that do not belong where they stand are ignored with a warning that names its code and the place of the offending text, and sections around them are read as if it were not there. The call fails exactly when an error is reported, the code returned is the error's, at most one error is reported, and then no API category is produced; notes refer to places within the document.",
 ['inputs'],'all documents, with any section in any place',
 'none of the parser tests builds here; the fixtures pin the notes of one document each',
 [A+'SectionParser.h',A+'SectionProcessor.h',A+'ResourceParser.h',A+'ActionParser.h',A+'PayloadParser.h',D+'RefractElementFactory.cc'],
 [('SectionProcessor::processUnexpectedNode',A+'SectionProcessor.h'),('annotations',D+'RefractAPI.cc')])
p('P07','Source maps lead back to the very text an element came from',
 "With source maps requested, each name, description, URI, method, header, asset, parameter and metadata entry carries a source map whose ranges cover exactly the lines of the document it was read from, in order and within the document, also after others were redefined, inherited or referred to. Within data structures, names, descriptions, keys and values given have maps that hold their text, and what is said about them has none. Without the request there are none, and nothing else about the tree depends on it.",
 ['inputs','configurations'],'all documents, with and without source maps',
 'none of the parser tests builds here; the fixtures pin the source maps of a few documents',
 [A+'SourceAnnotation.h',A+'BlueprintSourcemap.h',A+'AssetParser.h',A+'PayloadParser.h',D+'RefractSourceMap.h','packages/apib-parser/src/markdown-parser/ByteBuffer.cc'],
 [('source maps of sections',A+'BlueprintSourcemap.h'),('AttachSourceMap',D+'RefractSourceMap.h')])
p('P11','Any text at all is read safely into a well-formed result',
 "Reading any text ends, without crash or undefined behaviour, with the same result each time: a parse result that is either one API category followed by warnings or one error, whose code is the code returned, followed by warnings. Categories hold only what may stand in them, elements have the kind, meta and attributes their place demands, keys are unique, and every place named by a source map or a note lies within the text, with line and column to match. Options that leave out generated bodies or schemas change nothing else.",
 ['inputs','configurations'],'all texts, well-formed or not, under all parse options',
 'none of the parser tests builds here; the fixtures are mostly sensible documents and say nothing of damaged ones',
 [A+'*.h',A+'*.cc',D+'*.cc','packages/apib-parser/src/markdown-parser/*.cc'],[('drafter_parse_blueprint',D+'drafter.cc'),('WrapRefract / SerializeResult',D+'SerializeResult.cc')])
p('P12','The C interface does what each call says, in any order of calls',
 "Calls may come in any order: results stay as they are until freed, whatever else is parsed, whichever options are changed or freed, and whatever becomes of the text read. Checking a text yields the notes of parsing it, and no result when there are none; parsing to text equals parsing and serialising with the same options; serialising gives the result in full in the requested format, source maps exactly if requested. Missing text is an invalid argument, missing outputs and options are allowed, freeing nothing is harmless, and nothing is left behind once all is freed.",
 ['histories','configurations'],'all histories of calls over all texts',
 'the C interface is tested upstream with one document and one order of calls; those tests do not build here',
 [D+'drafter.cc',D+'options.cc',D+'drafter.h'],[('drafter_parse_blueprint, drafter_check_blueprint, drafter_serialize',D+'drafter.cc')])
p('P08','Signatures are taken apart into the parts written',
 "The signature of a section or list item - a name, values after a colon, attributes in parentheses, a description after a hyphen - is taken apart into exactly those parts, those its kind of section has none of being left in the next: names and values in backticks or emphasis are whole, marks inside them mean nothing, blanks around a part do not count. A signature written from parts reads back as these parts, every line yields an answer, and of what is written nothing is lost.",
 ['inputs'],'all lines, with every choice of expected parts and delimiters',
 'none of the parser tests builds here; upstream tests a few lines',
 [A+'Signature.h',A+'SignatureSectionProcessor.h',A+'StringUtility.h'],[('SignatureSectionProcessorBase::parseSignature',A+'SignatureSectionProcessor.h')])
p('P10','URI templates are taken apart as RFC 6570 has it',
 "A URI template is split into scheme (http, https, ftp, file), host and path, and into literal text and expressions; each expression has its operator and, in order, its variables with their modifiers: explode, or a prefix length between 1 and 9999. Nothing of the template is lost in between. A warning is given for each text or variable with a character that is not allowed, for each unclosed expression and unsupported operator, naming the first culprit, and for nothing else. This holds for text of any characters.",
 ['inputs'],'all templates: every arrangement of literals, escapes, operators, variables and modifiers',
 'none of the parser tests builds here; upstream tests each operator once',
 [A+'UriTemplateParser.h',A+'UriTemplateParser.cc','packages/apib-parser/src/grammar/Uritemplate.h'],
 [('URITemplateParser::parse',A+'UriTemplateParser.cc'),('grammar of URI templates','packages/apib-parser/src/grammar/Uritemplate.h')])
p('P13','Media types are recognised and rewritten without loss',
 "A media type is read as type, subtype, suffix and parameters, in order, as RFC 6838 and RFC 7231 have them: names of up to 127 characters, parameter values that are tokens or quoted, with quoted pairs standing for the character quoted, and blanks around separators. Writing it gives a text that reads as the same media type, with quotes exactly where a value is no token; no octet of any value is lost. Whether it denotes JSON or JSON Schema depends on type, subtype and suffix alone.",
 ['inputs'],'all media types: every arrangement of names, suffixes, parameters, quotes and blanks',
 'upstream tests some well-known types and the tests of the grammar do not build here; nothing is said of quoting',
 ['packages/apib-parser/src/grammar/Mediatype.h','packages/apib-parser/src/grammar/Mediatype.cc','packages/apib-parser/src/MediaTypeParser.cc','packages/apib/src/MediaType.cc','packages/drafter/src/backend/MediaTypeS11n.cc'],
 [('media type grammar','packages/apib-parser/src/grammar/Mediatype.h'),('serialize','packages/drafter/src/backend/MediaTypeS11n.cc')])
p('P09','Data structures written in MSON become the elements they describe',
 "A data structure in MSON - named types, attributes, members, items, sections of samples, defaults and one-ofs, mixins - becomes the element of the type written, or the one it implies: base types of named types are found whatever the order of definition, keys, values, samples, defaults, enumerations, descriptions, nested types and type attributes appear as written, in order. Text that is no valid value of its type, contradictions, duplicates and things out of place are warned about; circular inheritance, unknown bases and types defined twice are errors. What is expanded has the named types and mixins in place.",
 ['inputs'],'all data structures, in any nesting and any order of definition',
 'none of the parser tests builds here; the fixtures pin single documents, each with few of the combinations of type, attribute, value and section',
 [A+'MSON*.h',A+'MSON*.cc',A+'BlueprintParser.h',D+'RefractDataStructure.cc',D+'MsonOneOfSectionToApie.cc',D+'MsonTypeSectionToApie.cc',D+'NamedTypesRegistry.cc',D+'RefractAPI.cc',D+'refract/ExpandVisitor.cc'],
 [('MSON sections',A+'MSON.cc'),('MsonElementToRefract and relatives',D+'RefractDataStructure.cc'),('resolution of named types',A+'BlueprintParser.h'),('registration of named types',D+'NamedTypesRegistry.cc')])
p('P14','Bodies and schemas are generated where, and only where, they belong',
 "A request or response with attributes of its own, or of its action, whose content type is JSON and which has no body, or no schema, of its own gets one generated from them, unless the options leave it out; what is given stands as given, and no other message gets any. The body is JSON, the schema JSON Schema, both labelled with their content types, and the schema admits the body unless fixed values forbid it.",
 ['inputs','configurations'],'all messages with and without attributes, bodies, schemas and content types, under all options',
 'none of the parser tests builds here; the fixtures have a few of the combinations and never hold a body against its schema',
 [D+'Render.cc',D+'RefractAPI.cc',D+'refract/JsonValue.cc',D+'refract/JsonSchema.cc',D+'RefractElementFactory.cc'],[('kind of rendering by content type',D+'Render.cc'),('generateSchemaAsset and the generated body',D+'RefractAPI.cc')])
# the parser first, as it is what the system is for
P.sort(key=lambda x: 'PJESUMROX'.index(x['id'][0]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
