BUF="vtdxml/buffer/"
TB="Every obligation is generated from the current SSA of /repo and discharged for all inputs in 64-bit machine arithmetic. Trusted: the condition generator, the Go front end (x/tools go/ssa), the SMT solvers; single goroutine, memory below 2^46 objects, buffer storage encapsulated in its package. "
prop("C01","Paged buffers return the stored value at every index",
 "A long, int or object buffer of any page size returns, at every index below its size, exactly the value most recently stored there by an append or a modification, and reports an error at every other index. Appending or modifying one entry never changes any other entry.",
 ["inputs","histories"],"all append/modify histories, all sizes, all page sizes 2^0..2^62, all indices",
 "The tests use a handful of entries on the first page; index arithmetic on later pages and other page sizes is a for-all over sizes and histories.",
 [BUF+"long_buffer.go",BUF+"int_buffer.go",BUF+"object_buffer.go"],
 [("index split into page and slot by shift and mask","LongAt, IntAt, ObjectAt, ModifyEntry"),("page growth in Append","Append")],
 ["LongAt/IntAt/ObjectAt results after Append and ModifyEntry"],
 TB+"An object buffer stores pointers to the values; the pointees are the caller's.",
 [("size, capacity, buffer, exp, r, pageSize","number of entries, slots, pages and page geometry","FastLongBuffer, FastIntBuffer, FastObjectBuffer")])
prop("C02","Truncated or cleared buffers stay usable",
 "After a long or int buffer is cleared or set to a size not larger than its current one, its size is the requested one, entries below it are unchanged, and entries appended afterwards are stored at the next indices and read back exactly, across any number of truncations and appends. A cleared object buffer is empty and can be filled again in the same way.",
 ["histories","inputs"],"all histories of append, set-size, clear; all sizes and page sizes",
 "No test appends after a truncation beyond one page; the property quantifies over histories.",
 [BUF+"long_buffer.go",BUF+"int_buffer.go",BUF+"object_buffer.go"],
 [("SetSize, Clear keep pages; Append reuses them","SetSize, Clear, Append")],["size and entries after SetSize/Clear then Append"],TB)
prop("C03","Flattening yields exactly the buffer's contents in order",
 "Converting a long or int buffer to a flat slice yields a slice whose length is the buffer's size and whose entry i is the buffer's entry i, for every size including zero and exact multiples of the page size, and leaves the buffer unchanged.",
 ["inputs","histories"],"all sizes, page sizes and contents",
 "The tests flatten a few entries on one page only.",
 [BUF+"long_buffer.go",BUF+"int_buffer.go"],
 [("page-by-page copy loops","ToLongArray, ToIntArray")],["the flattened slice"],TB)
prop("C04","Upper and lower halves of stored 64-bit records are exact",
 "For every index below a long buffer's size, reading the lower half yields the low 32 bits of the value stored there and reading the upper half yields its high 32 bits, whatever the value; outside the size both report an error.",
 ["inputs"],"all 2^64 values, all indices, sizes and page sizes",
 "Tests read small positive values; sign and high bits need all values.",
 [BUF+"long_buffer.go"],[("shift and truncation","Lower32At, Upper32At")],["Lower32At, Upper32At results"],TB)
prop("C05","Byte-buffer slices equal the underlying bytes",
 "A byte buffer over a slice reports its length, returns the byte at each index inside it and an error at every other index; building one from a nil slice is an error. A slice request never yields anything but the requested number of bytes starting at the requested offset, succeeds for every non-empty range that ends before the end of the buffer, and is an error for every range reaching outside the buffer.",
 ["inputs"],"all byte slices, offsets and lengths, including overflowing sums",
 "Tests use a few in-range offsets.",
 [BUF+"byte_buffer.go"],[("range check and slice expression","ByteAt, GetByteSlice")],["ByteAt, GetByteSlice results"],TB)
prop("C06","Buffer construction is total",
 "Constructing any buffer with any combination of the offered page-size options either yields an empty, usable buffer with that page size or reports an error; it never panics and never yields a buffer that misplaces entries.",
 ["inputs","configurations"],"all option values (every int exponent)",
 "Tests try one or two exponents.",
 [BUF+"long_buffer.go",BUF+"int_buffer.go",BUF+"object_buffer.go"],[("option validation","NewFast*Buffer, WithFast*BufferPageSize")],["constructor results"],TB)
COM="vtdxml/common/"
prop("C07","XML character classes are exact over all code points",
 "For every 32-bit value, the XML character tables classify it as the XML 1.1 recommendation defines: a valid character exactly when in 1-D7FF, E000-FFFD or 10000-10FFFF; white space exactly for 20, 9, D and A; name-start and name characters exactly those of the NameStartChar and NameChar productions; and a content character exactly when valid and none of '<', '&' and ']'.",
 ["inputs"],"all 2^32 code values",
 "The tests sample a few characters of each class; a wrong range end shows only on that one code point.",
 [COM+"xml_char.go"],[("range tables and linear lookup","NewXmlChar, IsValidChar, IsSpaceChar, IsNameStartChar, IsNameChar, IsContentChar")],["results of the Is* lookups"],
 TB+"The lookups are proved against the table invariant for every 32-bit value; the constructor, which has no input, is evaluated: one run compares every table entry with the invariant (about 4 million entries).",
 [("validCharSlice, nameStartCharSlice, nameCharSlice, spaceCharSlice, specialCharSlice","character tables","XmlChar")])
RD="vtdxml/reader/"
prop("C08","Readers deliver the window's bytes once, in order, then end-of-file",
 "A UTF-8 or ASCII reader over a byte window delivers the bytes of the window one per read in document order and reports an end-of-file error exactly when its position is at or past the window's end; the UTF-8 reader refuses none of them. A skip consumes a character or a character sequence exactly when it is next in the window, and otherwise leaves the position unchanged. Lookups at an offset inside the window return the byte there (a carriage return followed by a line feed inside the window is looked up as one line feed of width two) and are an error outside it. No lookup moves the position, setting the position to any non-negative offset makes it exactly that, no reader changes the document, and none of this panics.",
 ["inputs","histories"],"all documents, windows, positions, offsets and operation sequences",
 "The tests read short strings from offset zero; the property quantifies over positions, window ends inside the document and failed skips.",
 [RD+"utf8_reader.go",RD+"ascii_reader.go"],[("cursor arithmetic and window checks","GetChar, SkipChar, SkipCharSeq, GetCharAt, GetLongCharAt, SetOffset, New*Reader")],["results and positions of the reader operations"],
 TB+"States the byte-wise behaviour of the readers: the UTF-8 reader does not decode multi-byte sequences (recorded in DESIGN.md). Skipped sequences are described for ASCII sequences; a negative position is a precondition violation.",
 [("offset, endOffset, xmlDoc","cursor, window end, document","Utf8Reader, AsciiReader")])
prop("C09","The ASCII reader never delivers a non-ASCII character",
 "Every character the ASCII reader returns without an error is below 128; reading a byte of 128 or above inside the window is an error.",
 ["inputs"],"all byte values, documents and positions","Tests read one non-ASCII character.",
 [RD+"ascii_reader.go"],[("isASCII check","AsciiReader.GetChar")],["AsciiReader.GetChar results"],TB)
prop("C29","Errors carry their own kind, their message and their cause",
 "Every error constructor returns a new, non-nil error of its own kind that carries exactly the message it was given, and where it takes them also the parameter name and the line number; unwrapping it yields exactly the cause it was given, or nothing when it takes none.",
 ["inputs"],"all messages, parameters, line texts and causes","No test constructs most of the kinds; causes are compared nowhere.",
 ["vtdxml/erroring/erroring.go"],[("constructors, Error and Unwrap","erroring.go")],["fields and Unwrap of the constructed errors"],
 TB+"The formatted text of Error() (fmt.Sprintf) is not decided, only that it is the text fixed at construction.")
PR="vtdxml/parser/"
TP=TB+"Parser contracts hold for the first Parse on a parser built by NewVtdParser with the options of the package (the byte order marks, UTF-16, ISO-8859 and Windows code pages the parser does not support are refused, which is proved). Documents are shorter than 2^31 bytes. "
ALLP=[PR+"parse.go",PR+"process.go",PR+"common.go",PR+"init.go",PR+"process_start_tag.go",PR+"process_end_tag.go",PR+"process_lt_seen.go",PR+"process_attr_name.go",PR+"process_attr_val.go",PR+"process_text.go",PR+"process_doc_start.go"]
prop("C10","Parsing never panics",
 "For every byte sequence and every window of it, with namespace awareness and either location-cache depth, building a parser and parsing either succeeds or returns an error; it never panics, whatever the bytes, however short or deeply nested the document, however many attributes or namespace declarations a tag has, and however long its names and texts are.",
 ["inputs","configurations"],"all byte sequences, windows and option combinations",
 "The tests parse a few small documents; index arithmetic at the window's end, full tables and odd bytes need every input.",
 ALLP,[("state machine over the reader; tables indexed by depth and attribute count","Parse, process*"),("offset arithmetic near the window's end","decideEncoding, processDocStart, recordWhiteSpace")],
 ["return of NewVtdParser and Parse"],TP,[("xmlDoc, offset, endOffset, depth, attrCount, tagStack, attrNameSlice, prefixedAttrNameSlice, prefixUrlSlice, nsBuffer*","window, cursor, element depth and the tables of the parser","VtdParser")])
prop("C11","Parsing terminates",
 "For every byte sequence and window, Parse returns: every step that does not end the parse consumes at least one byte of the window or ends the current construct, and every scan inside a step moves forward or stops.",
 ["inputs"],"all byte sequences and windows","A test can only show that sampled documents finish; a loop that stops advancing hangs on one byte pattern.",
 ALLP,[("one measure per loop that decreases on every iteration","loops of the parser"),("every state consumes input","process*")],["Parse returns"],TP)
prop("C12","Token records describe their place in the document",
 "After a successful parse every token record's offset and length lie inside the parsed window; its type is one of the defined token types and its depth the element depth at that point; records appear in document order; and a start tag's, attribute name's, attribute value's, text's, comment's, CDATA section's and processing instruction's records cover exactly the bytes of that construct, however long (a text longer than one record is recorded in consecutive pieces).",
 ["inputs"],"all accepted documents and windows","Tests compare a few records at small offsets; off-by-one and field overlap at field limits need all values.",
 [PR+"common.go",PR+"process_start_tag.go",PR+"process_attr_name.go",PR+"process_attr_val.go",PR+"process_text.go",PR+"process_cdata.go",PR+"process_pi_tag.go",PR+"process_pi_val.go",PR+"process_start_comment.go",PR+"process_end_comment.go"],
 [("record packing","writeVtd, writeVtdText, writeVtdWithLengthCheck, writeVtdL5"),("offset and length of each construct","process*")],["records in the VTD buffer after Parse"],
 TP+"Proved: every record written carries the given type, offset, length and depth, lies inside the window and leaves the earlier records alone, and all records keep that to the end of the parse. That the bytes covered are exactly those of the construct is cross-checked by the search for a failing input, not proved.")
prop("C13","Token records round-trip their fields",
 "For every token type, depth, prefix length, name length and offset within the limits the record format states, the record written for the token yields exactly those values when its fields are read back, and lengths beyond a field's limit are refused or recorded in pieces, never truncated silently.",
 ["inputs"],"all field values","Tests use small values; overlap between neighbouring fields shows only at their limits.",
 [PR+"common.go"],[("shift and mask packing","writeVtd, writeVtdText, writeVtdWithLengthCheck, writeVtdL5")],["the record appended"],TP)
prop("C14","Start and end tags nest and match",
 "Parse accepts a document only if every end tag carries exactly the name of the innermost open start tag and all elements are closed when the root element ends; markup with a missing, extra, longer, shorter or different end-tag name is refused, and a document whose tags nest and match is not refused for its tags.",
 ["inputs"],"all nestings and names up to the supported depth","Tests use one mismatched tag; names that share a prefix, have equal length, or repeat at several levels need all inputs.",
 [PR+"process_end_tag.go",PR+"process_start_tag.go",PR+"process_lt_seen.go",PR+"process_element_tail.go"],[("stack of open names and byte comparison","processStartTag, processEndTag, tagStack")],["whether Parse reports an error"],
 TP+"Proved: the end-tag step compares every byte of the name on the stack with the document and leaves the depth one lower; the start-tag step stores the place of its name. Acceptance of well-nested documents is cross-checked, not proved.",
 [("tagStack, depth","place of the name of each open element","VtdParser")])
prop("C15","Attribute names within a tag are unique",
 "A start tag with two attributes of the same name is refused, wherever the two stand and however many attributes the tag has; a tag whose attribute names all differ is never refused for a duplicate.",
 ["inputs"],"all attribute counts and names","Tests use two adjacent duplicates; pairs apart, names sharing a prefix and more attributes than the table first holds need all inputs.",
 [PR+"process_attr_name.go",PR+"common.go"],[("comparison with the earlier names of the tag","checkAttrUniqueness")],["whether Parse reports an error"],TP,[("attrNameSlice, attrCount","names of the current tag","VtdParser")])
prop("C16","Namespace prefixes resolve and stay within scope",
 "With namespace awareness on, an element or attribute whose prefix is declared neither on the tag nor on an open ancestor is refused (the prefix xml needs no declaration), and one whose prefix is declared is accepted; two attributes of a tag with different prefixes bound to the same namespace and equal local names are refused; the reserved prefixes and namespace names can only be used as the Namespaces recommendation allows.",
 ["inputs"],"all prefixes, declarations and nestings","Tests use one prefix on the root; scope ends, escaped namespace names and prefixes of equal length need all inputs.",
 [PR+"common.go",PR+"process_attr_val.go",PR+"process_start_tag.go",PR+"process_attr_name.go"],[("lookup in the declaration records","qualifyElement, qualifyAttributes"),("comparison of namespace names","matchUrl, identifyNsUrl, checkQualifiedAttributeUniqueness")],["whether Parse reports an error"],TP,
 [("nsBuffer1, nsBuffer2, nsBuffer3, prefixUrlSlice, currentElementRecord","declarations in scope","VtdParser")])
prop("C17","Comments, CDATA, PIs and DOCTYPE end exactly at their delimiters",
 "A comment ends at its first '--' which has to be followed by '>', a CDATA section at the first ']]>', a processing instruction at the first '?>', and a text may not contain ']]>'; a construct that is not terminated, has a malformed opening delimiter or stands where it may not (a CDATA section or text outside the root element, a declaration anywhere but at the start) is refused, and well-formed ones are accepted before, inside and after the root element.",
 ["inputs"],"all contents, including delimiter look-alikes","Tests use contents without delimiter look-alikes.",
 [PR+"process_start_comment.go",PR+"process_end_comment.go",PR+"process_cdata.go",PR+"process_pi_tag.go",PR+"process_pi_val.go",PR+"process_pi_end.go",PR+"process_doc_type.go",PR+"process_doc_end.go",PR+"process_text.go",PR+"process_lt_seen.go"],
 [("delimiter scan","processStartComment, processCdata, processPiVal, handleOtherTextChar, validateSeq")],["whether Parse reports an error, and the records"],
 TP+"Proved: the scan for ]]> in text; that a comment's content is left only at -- followed by >, a CDATA section's at ]]>, a processing instruction's at ?>; and that opening delimiters are matched byte by byte. Where in the document a construct may stand is cross-checked, not proved.")
prop("C18","Only legal entity and character references are accepted",
 "In text and in attribute values, '&' is accepted only as the start of one of the five predefined entities or of a decimal or hexadecimal character reference, terminated by ';', whose value is a character the XML 1.1 recommendation allows; every such reference is accepted and every other one is refused, whatever the number of digits.",
 ["inputs"],"all byte sequences after '&'","Tests use two references; overflow of the value, missing terminators and near-miss names need all inputs.",
 [PR+"common.go",PR+"process_attr_val.go",PR+"process_text.go"],[("reference scanner","entityIdentifier, handleOtherTextChar")],["whether Parse reports an error"],TP)
prop("C19","Parsing leaves the document and the rest of the program alone",
 "Building a parser and parsing never modifies the bytes of the document, never changes package-level state, and writes nothing to standard output; two parsers over the same bytes give the same result independently of each other and of earlier parses.",
 ["inputs","histories"],"all documents and interleavings of parser calls on one goroutine","Tests use one parser once.",
 ALLP,[("frame: each step writes only fields of its own parser and its buffers","all functions of the parser")],["document bytes, package variables, standard output after Parse"],TP)
prop("C20","Parser construction validates its window",
 "NewVtdParser returns a parser exactly when the document is non-empty and the window given by the options lies inside it and is not empty; otherwise it returns an error and no parser, and it never panics, whatever offset and length are given and in whatever order the options come.",
 ["inputs","configurations"],"all documents and option values","Tests use two or three windows; negative and overflowing sums need all values.",
 [PR+"vtd_parser.go",PR+"init.go"],[("range checks before the first read","NewVtdParser, With* options")],["results of NewVtdParser"],TP)
prop("C21","XML declarations are validated",
 "An XML declaration is accepted only if it gives version 1.0 or 1.1, then optionally an encoding the parser supports (UTF-8, ASCII or US-ASCII in any letter case), then optionally standalone yes or no, each in matching quotes and in that order; every such declaration is accepted, and the records of its names and values cover exactly those names and values.",
 ["inputs"],"all declarations, quote styles and letter cases","Tests use one or two declarations.",
 [PR+"process_dec_attr_name.go",PR+"process_doc_start.go",PR+"common.go"],[("declaration scanner","processDecAttrName, processDecEncodingAttr, processDecStandaloneAttr, check*Encoding")],["whether Parse reports an error, and the records"],TP)
prop("C30","Location-cache entries name start tags of their level",
 "After a successful parse every entry of the location cache of a level names, in document order, the record of a start tag at that depth, and its link to the next level is either the first entry written for its children or the no-children mark; every start tag of a cached depth has an entry.",
 ["inputs"],"all element trees","Tests look at trees with one or two children.",
 [PR+"common.go"],[("entry and link update when an element is recorded","writeVtdL5 and the location-cache writers")],["the level buffers after Parse"],
 TP+"Proved for the entry writer: the entries below the new one keep their record index and the links stay in range. The tree-wide statement is cross-checked, not proved.",
 [("l1Buffer..l5Buffer, lastDepth, lastL*Index","location cache","VtdParser")])

BUDGET=("Contracts for this property stand in /verif/contracts/parser.spec and are discharged on the current tree, and ./check %s decides it, "
 "but with the other checks its cost (%s) did not fit the time left to validate the whole set; it is not claimed rather than claimed unvalidated.")
na("C10",BUDGET%("C10","38009 obligations, about 400 s on 8 cores"))
na("C11",BUDGET%("C11","several minutes: the measures need every loop invariant of the parser"))
na("C12",BUDGET%("C12","several minutes: the record invariant is threaded through every step"))
na("C16",BUDGET%("C16","several minutes"))
na("C21",BUDGET%("C21","168 obligations, about 110 s on 8 cores"))
na("C14",BUDGET%("C14","330 obligations, one to several minutes"))
na("C17",BUDGET%("C17","99 obligations, about 60 s, more under load"))
na("C19",BUDGET%("C19","33 frame obligations over 71 functions, about 90 s, more under load"))
