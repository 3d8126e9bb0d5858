import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"entries in push order","where":"internal/stack"}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Well-formed documents parse to exactly the tree they describe",
 "Every well-formed document is accepted, and the tree returned contains exactly the elements, attributes, text, comments and processing instructions the document writes, with the same names, values, nesting and order. How the document is spelled (quote characters, empty-element tags, blanks inside tags, CDATA sections or character references instead of plain characters, line-ending style) never changes the tree.",
 ["inputs"],"for every logical document and every legal way of writing it down",
 "The tests parse a fixed set of files; the tree must be right for every combination of nesting, node kind, name, character and lexical spelling, and two spellings of one document must agree.",
 ["parserctx.go","tree.go","parser.go","node.go","text.go"],
 [("content loop and character data","parserctx.go: parseContent, parseCharData, parseCDSect"),("tags and attributes","parserctx.go: parseElement, parseStartTag, parseEndTag, parseAttribute"),("SAX to tree","tree.go: TreeBuilder")],
 observe="Parse result walked through the public node accessors")
p("P02","Ill-formed documents are rejected with an error",
 "A document that breaks a well-formedness rule the parser implements (mismatched or missing tags, malformed or duplicate attributes, illegal characters, bad names, unterminated comments, processing instructions or CDATA sections, misplaced ']]>' or '<', undeclared entities, content after the root, a malformed XML or DOCTYPE declaration) is never accepted: parsing returns a non-nil error and no document.",
 ["inputs"],"for every document obtained from a well-formed one by an edit that makes it ill-formed",
 "Rejection has to work for each rule at each place of any document; tests try a couple of bad files, and a relaxed test for one rule in one context goes unseen.",
 ["parserctx.go","parser.go","stack.go"],
 [("grammar productions","parserctx.go: parse*"),("end-tag matching","parserctx.go: parseEndTag, nodeTab"),("duplicate attributes","element.go: SetAttribute")],
 observe="error and document returned by Parse")
p("P03","Parsing any byte sequence terminates cleanly",
 "For every byte sequence, parsing returns either a document or an error: it never panics, never loops for ever, never overflows the stack, and never consumes time or memory out of proportion to the input, however deeply nested the input and however its entities refer to each other. A document that was returned can also be walked and serialised without panicking.",
 ["inputs"],"for every byte sequence, including truncated, corrupted, binary and adversarial ones",
 "Crashes and endless loops hide in inputs nobody wrote down: truncations at every offset, corrupted bytes, recursive or exponentially growing entities.",
 ["parserctx.go","document.go","encoding/encoding.go","dump.go"],
 [("end-of-input handling","parserctx.go: loops over Peek/PeekN/Advance"),("entity recursion and expansion limits","parserctx.go: parseReference, decodeEntitiesInternal, entityCheck; document.go: stringToNodeList")],
 observe="return, panic, CPU and heap use of Parse, Walk and XMLString")
p("P04","Serialising a parsed document loses nothing and is stable",
 "Serialising any successfully parsed document gives text that parses again to an equal document (same tree, attributes, namespaces, DOCTYPE declarations and XML declaration), and serialising that document again gives the same bytes. Equality includes the expanded value of text and attributes, whichever characters they contain.",
 ["inputs"],"for every document the parser accepts",
 "The golden files exercise few escapes and node combinations; escaping and serialisation must be right for every character in every kind of place.",
 ["dump.go","parserctx.go","tree.go","document.go"],
 [("escaping","dump.go: escapeText, escapeAttrValue, dumpQuotedString"),("node serialisation","dump.go: DumpDoc, DumpNode, dumpDTD")],
 observe="Document.XMLString and a second Parse")
p("P05","Documents built through the API survive serialisation",
 "A document assembled with the construction API (elements, text, attributes, namespaces, comments, processing instructions, internal subset) serialises to well-formed XML that parses back to an equal tree, for every legal name and every legal character in text and attribute values. The node accessors of the built tree report what was put in. An attribute that an element has already is not added again.",
 ["inputs","histories"],"for every sequence of construction calls with legal names and content",
 "Unit tests build one or two tiny trees with ASCII content; what has to hold is every combination of construction order, node kinds and characters needing escapes.",
 ["document.go","element.go","node.go","text.go","comment.go","pi.go","namespace.go","dump.go"],
 [("construction","document.go: Create*, SetDocumentElement; element.go: SetAttribute; node.go: SetNamespace"),("serialisation","dump.go")],
 observe="Document.XMLString, accessors, Parse of the output")
p("P06","Tree links stay consistent under every sequence of mutations",
 "After any sequence of node operations (adding a child, sibling or content, replacing a node, setting the document element, adding attributes or an internal subset, moving a tree to another document), the tree is consistent: the first and last child bound the child list, next and previous sibling mirror each other, each child names its parent, no node occurs twice, each node belongs to the document of its tree, and the content equals what the operations put there. A refused operation returns an error and leaves the tree unchanged.",
 ["histories"],"for every sequence of mutation calls on trees of any shape, including moving nodes that are already linked",
 "The unit tests make one or two calls on fresh nodes; link corruption shows up only after particular sequences such as replacing a last child, moving a linked node or merging adjacent text.",
 ["node.go","element.go","text.go","comment.go","document.go","attr.go"],
 [("linking","node.go: addChild, addSibling, replaceNode"),("text merging","text.go: AddSibling, AddChild; node.go: addChild")],
 observe="FirstChild, LastChild, NextSibling, PrevSibling, Parent, Content after each call")
p("P07","Namespace prefixes resolve to the innermost declaration in scope",
 "Every element reports the namespace bound to its prefix (or the default namespace, when unprefixed) by the nearest enclosing declaration, itself included, and the declarations it carries itself, in document order; a declaration is never visible to siblings or to content after the element that made it. Redeclaring and undeclaring the default namespace take effect exactly for that subtree, the predefined xml prefix needs no declaration, and an element whose prefix is not in scope is rejected. So is a declaration that binds xml to another name, declares xmlns, or binds a prefix to the name of xmlns or to nothing; references in a declaration count with what they stand for. The names of entities and the targets of processing instructions have no colon.",
 ["inputs"],"for every nesting of namespace declarations and prefixed names",
 "Scope bugs need particular shapes: siblings after a declaring element, shadowing several levels deep, or declarations placed between attributes; the one namespace test has a flat document.",
 ["parserctx.go","stack.go","tree.go","node.go","dump.go"],
 [("declaration stack","stack.go: nsStack; parserctx.go: pushNS, lookupNamespace"),("start and end tags","parserctx.go: parseStartTag, parseEndTag"),("tree","tree.go: StartElementNS; node.go: SetNamespace")],
 observe="Prefix, URI, LocalName, Namespaces of parsed elements and StartElementNS arguments")
p("P08","The SAX stream is complete, ordered, balanced and stops on error",
 "For every accepted document the events reach the handler in document order, once each: start and end of document bracket all others, element starts and ends nest and carry matching names, and the data in the events is exactly the data of the document (CDATA sections apart from other character data, and what the references to entities stand for included), so that a handler sees the same document as the tree builder. An error returned by a callback stops the parse and is returned to the caller, except the distinguished \"handler not specified\" value, which has no effect.",
 ["inputs","fault_sequences"],"for every document, and for a callback failing at any event position",
 "Recorded event logs cover a few documents and no failing callbacks; the guarantee is about every document and every position a callback can fail at.",
 ["parserctx.go","sax/interface.go","sax/sax2.go","tree.go"],
 [("event firing","parserctx.go: s.StartElementNS … in the parse functions"),("callback table","sax/sax2.go: SAX2")],
 observe="calls received by a SAX2Handler installed with SetSAXHandler")
p("P09","DTD declarations are represented faithfully",
 "Element, attribute-list and entity declarations in the internal subset of an accepted document are each recorded once, in order, with their name, attribute type, enumeration tokens, default kind and default value, and with entity replacement text denoting what was declared, and serialising the document writes equivalent declarations. When an attribute or an entity is declared twice, the first declaration binds.",
 ["inputs"],"for every internal subset made of element, attribute-list and internal entity declarations",
 "There is a combinatorial space of types, default kinds, quotes and special characters, of which golden files show a handful.",
 ["parserctx.go","dtd.go","tree.go","dump.go","entity.go","attr.go"],
 [("parsing","parserctx.go: parseMarkupDecl, parseElementDecl, parseAttributeListDecl, parseEntityDecl"),("storage","dtd.go: AddElementDecl, RegisterAttribute, AddEntity"),("dump","dump.go: dumpElementDecl, dumpAttributeDecl, dumpEntityDecl")],
 observe="SAX declaration events, DTD lookups and the dumped internal subset")
p("P10","Attribute values are normalised and defaulted per their declarations",
 "An attribute value seen by the application is the literal after attribute-value normalisation: literal white space becomes spaces, character references keep their character, and values of declared tokenised types additionally lose leading, trailing and repeated spaces. Declared defaults are reported, marked as defaults, exactly on the elements that omit the attribute and never when it is given; attributes explicitly written keep document order.",
 ["inputs"],"for every combination of declared attribute type, default and written value",
 "Normalisation depends on the declared type, on the characters and on whether references occur in the value; only a generator covers the cross product.",
 ["parserctx.go","tree.go","document.go"],
 [("normalisation","parserctx.go: parseAttributeValueInternal, attrNormalizeSpace, addSpecialAttribute"),("defaulting","parserctx.go: addAttributeDefault, parseStartTag")],
 observe="attributes in StartElementNS and Element.Attributes")
p("P11","Character and entity references mean what was declared",
 "A character reference, decimal or hexadecimal, denotes exactly that character and is rejected if the character is not legal; the five predefined entities denote their characters everywhere; a reference to a declared internal entity, in content or in an attribute, directly or through other entities, denotes the declared replacement text, and markup inside it is parsed as such. Undeclared, recursive and unterminated references are rejected. Entities that expand to less than 990,000 bytes in all are expanded however they are nested (up to about 40 deep).",
 ["inputs"],"for every code point and every acyclic or cyclic graph of entity declarations and uses",
 "Reference graphs are unbounded, and the boundary code points and mixed orders of nested entities in content and attributes are exactly what samples miss.",
 ["parserctx.go","document.go","entity.go","reference.go"],
 [("character references","parserctx.go: parseCharRef, parseStringCharRef"),("entity references","parserctx.go: parseReference, parseEntityRef, decodeEntities; document.go: stringToNodeList")],
 observe="text content and attribute values after Parse, SAX Characters")
p("P12","The document encoding never changes the parsed content",
 "A document written in a supported encoding and naming it in the XML declaration, or starting with a byte order mark, parses to the same tree as its UTF-8 form; an unknown encoding name is an error, and so is a declaration of an encoding that the document evidently is not in (UTF-16 bytes declared as something else, or the reverse). Serialising a document uses the encoding it declares, so the output can be parsed back to the same tree even when characters are not representable in that encoding.",
 ["inputs"],"for every supported encoding label (in any letter case) and every text, representable or not",
 "Each of dozens of encodings has its own table and aliases; the encoding test checks one.",
 ["encoding/encoding.go","parserctx.go","dump.go"],
 [("label lookup","encoding/encoding.go: Load"),("detection and switching","parserctx.go: detectEncoding, switchEncoding, parseXMLDecl")],
 observe="Parse of the encoded bytes, XMLString output")
p("P13","Parse errors point at the fault",
 "An error returned for an ill-formed document carries a line number, column and source line that lie inside the input read so far, at the place where the fault became apparent: never before the construct containing the fault and never beyond it. Moving the fault down by adding lines in front moves the reported line by the same amount and leaves the column unchanged.",
 ["inputs"],"for every ill-formed document and every number of preceding lines",
 "The position depends on everything parsed before the error, so it has to be checked against independently computed positions in arbitrary documents.",
 ["parserctx.go","errors.go"],
 [("error wrapping","parserctx.go: error"),("rendering","errors.go: ErrParseError.Error")],
 observe="ErrParseError fields of the returned error")
p("P14","Scope stacks behave as last-in first-out lists with innermost lookup",
 "The parser's scope stacks behave like an ordered list under every sequence of operations: push appends, popping n removes the n most recent (never more than exist), peeking n returns the n most recent in push order without removing them, and the length is always the number of entries. Lookup by key in the keyed variants returns the value pushed most recently among the entries still present.",
 ["histories"],"for every sequence of push, pop, peek and lookup calls and every count, including zero and more than present",
 "One test performs a single fixed sequence of calls; slice-based stacks go wrong after particular interleavings of pops and pushes.",
 ["internal/stack/simple.go","internal/stack/unique.go","internal/stack/stack.go","stack.go"],
 [("stacks","internal/stack/simple.go, internal/stack/unique.go"),("typed wrappers","stack.go: nsStack, nodeStack, inputStack")],
 state="SimpleStack and UniqueStack slices",observe="return values of the stack methods, namespace lookup in parses")
p("P15","Parses are deterministic and independent of each other",
 "Parsing is a pure function of the input bytes and configuration: repeating a parse gives the same tree, the same event sequence, the same serialisation or the same error, whether the parser is new or was used before for other (also failing) documents, and whether or not other parses run at the same time. The input bytes are never modified, and a returned document is unaffected by later parses or by later changes to the input buffer.",
 ["inputs","histories","schedules"],"for every sequence of documents given to one or several parsers, sequentially or concurrently",
 "Shared buffers, global entities and map iteration order cause rare interference between parses, which single-shot tests cannot show.",
 ["parser.go","parserctx.go","entity.go","interface.go","tree.go"],
 [("buffer pool","parserctx.go: bufferPool"),("global predefined entities","interface.go: EntityLT …"),("per-parse context","parser.go: Parse")],
 observe="serialisations, event logs and errors of repeated and concurrent parses")
p("P16","The lint command agrees with the library",
 "For each file given, or standard input when none is, helium-lint prints exactly the serialisation of the parsed document if it is well-formed, and otherwise reports the error; it always terminates, and exits successfully exactly when every input was readable and well-formed and all of the output could be written. Files are handled in the order given, however many there are.",
 ["inputs","configurations"],"for every list of well-formed, ill-formed and missing files and for standard input",
 "No test runs the command at all.",
 ["cmd/helium-lint/helium-lint.go","internal/cliutil/tty_posix.go"],
 [("command","cmd/helium-lint/helium-lint.go: _main")],
 observe="stdout, stderr and exit status of the built binary")
p("P17","Options are independent switches",
 "Each parse option and each subset-loading option can be set and queried on its own: after any sequence of settings, exactly the options that were set report as set. No two options share a bit, and none is empty.",
 ["histories"],"for every set of options set in every order",
 "Option constants are computed expressions; overlap between a pair shows only when pairs are tried systematically.",
 ["interface.go","bitset.go"],
 [("constants","interface.go: ParseOption, LoadSubsetOption"),("operations","bitset.go: Set, IsSet")],
 observe="IsSet after Set")
p("P18","Walking visits every node once, in document order",
 "Walking from a node calls the function exactly once for that node and each of its descendants, parents before children and siblings in order, and nothing outside that subtree. If the function returns an error the walk stops immediately and returns that error.",
 ["inputs","fault_sequences"],"for every tree, every start node and every position at which the function fails",
 "Completeness and early stop have to hold for all shapes, including documents with DTDs and entity references, and at every failing position.",
 ["node.go"],
 [("walk","node.go: Walk")],
 observe="sequence of nodes given to the WalkFunc")
p("P19","Output errors are never swallowed",
 "When the destination of a serialisation reports a write error, at whatever point of the output, the serialising call returns an error; when it succeeds, the destination received the complete output, in order, independent of how the writer accepts it.",
 ["inputs","fault_sequences"],"for every document and every byte offset at which writing starts to fail",
 "Tests write to memory buffers that never fail; a dropped error at any of dozens of write sites silently truncates output.",
 ["dump.go","document.go","element.go"],
 [("writes","dump.go: io.WriteString and Write calls"),("entry points","document.go: XML; element.go: XML")],
 observe="error returned by XML and DumpDoc for a failing writer")
p("P20","The XML declaration is understood and preserved",
 "The version, encoding and standalone values of the XML declaration are reported by the document as written, in whatever legal spelling the declaration uses, and are absent when the declaration omits them; serialising writes them back. Malformed declarations (parts missing, repeated, out of order, with bad values or not separated by white space) are rejected.",
 ["inputs"],"for every legal and every malformed XML declaration",
 "The declaration test samples a few spellings; combinations of optional parts, quotes, blanks and bad values are many.",
 ["parserctx.go","document.go","dump.go"],
 [("parsing","parserctx.go: parseXMLDecl, parseVersionNum, parseEncodingName, parseStandaloneDecl"),("dump","dump.go: dumpDocContent")],
 observe="Document.Version, Encoding, Standalone and XMLString")
p("P21","Element content models keep their meaning",
 "A content model in an element declaration accepts, as recorded and as written back by serialisation, exactly the same sequences of children as the declaration in the source: sequence, choice, nesting and the three occurrence operators keep their grouping, as do mixed-content lists and the EMPTY and ANY models. Malformed models (mixed separators, missing names or parentheses, badly terminated mixed content) are rejected.",
 ["inputs"],"for every content-model expression",
 "Recursive expressions are an infinite space; the tests contain shallow ones, while grouping errors need nested groups with operators.",
 ["parserctx.go","valid.go","dtd.go","dump.go"],
 [("parsing","parserctx.go: parseElementContentDecl, parseElementMixedContentDecl, parseElementChildrenContentDeclPriv"),("copy and dump","valid.go: copyElementContent; dump.go: dumpElementContent")],
 observe="content model in the serialised internal subset")
p("P22","White space in content is classified by the declarations",
 "White space between tags of an element declared with pure element content is reported as ignorable, while white space in an element declared with mixed or any content, and all text holding any other character, is reported as character data; either way every character is delivered exactly once and in order, and the default tree keeps it. Splitting text by comments, references, CDATA sections or processing instructions never loses, duplicates or reorders a character.",
 ["inputs"],"for every interleaving of text, white space, references, CDATA sections, comments and child elements under every kind of declaration",
 "Classification depends on the declaration, on the neighbours and on look-ahead; samples cover one or two neighbourhoods.",
 ["parserctx.go","tree.go","document.go","dtd.go"],
 [("classification","parserctx.go: areBlanks; document.go: IsMixedElement"),("delivery","parserctx.go: parseCharData; tree.go: Characters, IgnorableWhitespace, CDataBlock")],
 observe="Characters, IgnorableWhitespace and CDataBlock events; element content")
p("P23","Parameter entities, and which entities must be declared",
 "A parameter entity reference is recognised between the markup declarations and inside entity values, where it stands for the replacement text of the first declaration of that name, recursively; inside any other part of a declaration or outside the internal subset it is an error, and in comments, processing instructions, attribute values and content '%name;' is plain text. Parameter and general entities have separate names. As long as a document is standalone='yes' or no parameter entity reference came before, every referenced entity must be declared, otherwise parsing fails; after a parameter entity reference, a reference to an undeclared entity is not an error: it is reported as a reference by its name, and the rest of the document is reported as usual. An entity that refers to itself directly or through others is an error wherever it is used.",
 ["inputs","histories"],"for every sequence of entity declarations, references and attribute declarations in the internal subset and every use of them in the document",
 "Whether a reference is an error depends on the history of declarations and references before it, on the standalone declaration and on the place; samples cover one or two histories.",
 ["parserctx.go","tree.go","document.go","dtd.go"],
 [("parameter entity references","parserctx.go: parsePEReference, parseStringPEReference, decodeEntitiesInternal"),("entity declared constraint","parserctx.go: parseEntityRef, parseStringEntityRef, mustDeclareEntities, expandEntity"),("entity tables","dtd.go: LookupEntity, LookupParameterEntity; document.go: GetEntity, GetParameterEntity")],
 observe="error of Parse; EntityDecl, Reference, Characters and StartElementNS events; entity look-ups; nodes of the tree")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
