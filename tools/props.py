import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=None
    P.append(d)
L='lib/src/'
p('C01','Parsing never panics',
 "No input text, byte slice or reader content makes any parsing entry point (parse_str, parse_slice, parse_reader, value::from_str / from_slice / from_reader with no merging or MergeBehaviour::Error, Expression::parse) panic: malformed input is always reported as an Err. This includes every string escape, every heredoc body and indentation, every number and every merge conflict.",
 ['inputs'],"every finite input text or byte sequence, nesting depth limited by the stack (see C03)",
 "The tests parse about a hundred fixed snippets; a panic needs one particular shape of input (a short heredoc line, a multi-byte character at a cut, an odd escape) that no sample contains.",
 [L+'parser.rs',L+'parser/string.rs',L+'parser/number.rs',L+'parser/literals/number.rs',L+'utils.rs',L+'value.rs',L+'errors.rs'],
 [('panicking call and checked-arithmetic sites reachable from the parse entry points','lib/src/parser/**, lib/src/value.rs'),('unindent_heredoc slices lines','lib/src/parser/string.rs'),('octal/hex digit bounds before from_str_radix','lib/src/parser/string.rs')],
 ['parse_str','parse_slice','parse_reader','value::from_str','value::from_slice','value::from_reader','Expression::parse'])
p('C02','Parsing terminates without exponential re-parsing',
 "Every parse terminates: no grammar rule can call itself before consuming input and no repetition repeats a step that consumed nothing. No nested construct is parsed again by a second alternative after a first alternative has already parsed it, so the work never multiplies with each nesting level.",
 ['inputs'],"every finite input, valid or not, in both the configuration grammar and the value grammar",
 "A test can only show that the inputs it tries finish; a non-progressing loop or an exponential blow-up needs a particular (usually failing, deeply nested) input.",
 [L+'parser.rs',L+'parser/block.rs',L+'parser/body.rs',L+'parser/object.rs',L+'parser/tuple.rs',L+'parser/expression.rs',L+'parser/whitespace.rs',L+'parser/string.rs'],
 [('productions and their alternatives','lib/src/parser/*.rs named!/alt!/many0!/separated_list!')],
 ['parse_str','value::from_str'])
p('C03','Only bracket nesting uses stack, and its depth is bounded',
 "Stack use during parsing, merging, copying, deserialization and queries never grows with the length of a document, the number of elements, or the length of a string: the only recursion follows the nesting of brackets, blocks or block labels. The depth of that nesting is bounded, so no input can exhaust the stack.",
 ['inputs'],"every input, including arbitrarily long and arbitrarily deeply nested ones",
 "Stack exhaustion aborts the test process and needs inputs thousands of levels deep; tests use a handful of levels.",
 [L+'parser.rs',L+'parser/expression.rs',L+'parser/tuple.rs',L+'parser/object.rs',L+'parser/body.rs',L+'parser/block.rs',L+'value.rs',L+'lib.rs'],
 [('recursion cycles of the resolved call graph','lib/src/parser/*.rs, lib/src/value.rs')],
 ['parse_str','value::from_str'])
p('C04','A successful parse consumed the whole input',
 "Whenever parse_str, parse_slice, parse_reader, value::from_str, value::from_slice, value::from_reader or Expression::parse returns Ok, every character of the input was consumed by the grammar; any unparsed remainder makes the call return Err. No entry point returns the successfully parsed prefix of a document.",
 ['inputs'],"every input text",
 "Tests check a few trailing-garbage inputs; silently accepting a prefix loses configuration only for inputs that go wrong after a valid start.",
 [L+'parser.rs',L+'parser/body.rs',L+'parser/expression.rs',L+'value.rs'],
 [('exact! / eof! around the start productions and the remaining-input checks','lib/src/parser.rs, lib/src/value.rs, lib/src/parser/expression.rs')],
 ['parse_str','value::from_str','Expression::parse'])
p('C05','str, slice and reader entry points agree',
 "For the same bytes, parse_slice and parse_reader succeed exactly when the bytes are valid UTF-8 and parse_str succeeds on them, with an equal result, and likewise value::from_slice and value::from_reader against value::from_str with the same merge argument. Nothing is replaced, trimmed, truncated or skipped before parsing, the reader is read to its end, and read or UTF-8 failures are returned as errors.",
 ['inputs','fault_sequences'],"every byte sequence, every reader behaviour (short reads, errors), every merge option",
 "Tests feed a few valid fixtures; invalid UTF-8 at an arbitrary position, read errors and chunked reads are not enumerated.",
 [L+'parser.rs',L+'value.rs'],
 [('from_utf8 / read_to_string then delegation','lib/src/parser.rs parse_slice, parse_reader; lib/src/value.rs from_slice, from_reader')],
 ['parse_slice','parse_reader','value::from_slice','value::from_reader'])
p('C06','Owned copies preserve everything',
 "as_owned on any syntax tree, body, block, label, expression, number, object, key or value yields an equal structure: every variant maps to the same variant, every field to the same field, and every element, entry, label, flag and text is kept, in the same order. Nothing in the result borrows from the input.",
 ['inputs'],"every value of every type implementing the owned conversion, all nesting",
 "Tests compare a few parsed fixtures; a dropped or swapped field shows only for a value that exercises that variant and field.",
 [L+'lib.rs',L+'value.rs',L+'parser/expression.rs',L+'parser/number.rs',L+'parser/object.rs',L+'parser/block.rs',L+'parser/body.rs',L+'parser/attribute.rs',L+'parser/literals/key.rs'],
 [('AsOwned implementations','all impl AsOwned')],
 ['AsOwned::as_owned','parse_reader','value::from_reader'])
p('C07','Merging never silently loses or overwrites an entry',
 "Merging a body or block (merge, as_merged, new_merged, from_str with MergeBehaviour::Error) either returns Err or a result holding every key, every object and every labelled block of its input: objects sharing a key are all kept in order, blocks sharing a key are all kept under their labels. Two scalars, lists or nulls under one key, an object or block colliding with another kind, or two blocks of one key with the same labels are an error and never resolved by keeping one of them.",
 ['inputs'],"every sequence of entries, with any pattern of repeated keys, kinds and labels",
 "Tests merge a few fixed pairs; losing an entry depends on the order, kinds and repetition of keys in the document.",
 [L+'value.rs'],
 [('MapValues::new_merged, Block::new_merged','lib/src/value.rs')],
 ['MapValues::merge','Block::merge','value::from_str'])
p('C08','Merging is recursive and reports nested failures',
 "A successful merge is deep: every nested list element, object body and block body has been merged too, scalars and sets of pairs already in merged form are returned unchanged, and any error while merging a nested value makes the whole merge fail with that error. The consuming and the borrowing forms give the same result, and unmerging keeps every entry.",
 ['inputs'],"every value tree, every depth",
 "Tests merge shallow documents; a level that is skipped only shows with duplicates at exactly that level.",
 [L+'value.rs'],
 [('Value::merge, MapValues::merge/as_merged/unmerge, Block::merge/as_merged/unmerge','lib/src/value.rs')],
 ['Value::merge','MapValues::merge','Block::merge','MapValues::unmerge','Block::as_unmerged'])
p('C09','The block index holds every block once, in order',
 "Building a block index from any sequence of blocks (constructor, collect, extend or repeated append) stores each block exactly once, under its own type and its complete label path, and blocks with the same type and labels stay in their original relative order. The result does not depend on whether equal blocks are adjacent, on how many labels earlier blocks had, or on which of these ways built it.",
 ['inputs','histories'],"every sequence of blocks and every interleaving of types and label paths",
 "Tests build indexes from a few hand-written sequences; loss needs a particular interleaving of types or label depths.",
 [L+'parser/block.rs'],
 [('Blocks::new/append/extend, BlockBody::append/body_to_labels/extend','lib/src/parser/block.rs')],
 ['Blocks::new','Blocks::append','BlockBody::append'])
p('C10','Block index queries agree with its contents',
 "For every block index, len_blocks counts exactly the stored blocks; flat_iter, flat_iter_mut and flat_into_iter each yield every stored block once with its type and full label path in order; get and get_mut with a label path reach exactly the sub-index stored under it. label_lens is exactly the set of label counts present, and label_lens_uniform is Some(n) only when every stored block has n labels.",
 ['inputs','histories'],"every index, every query path",
 "Tests query small fixed indexes; the sibling queries can disagree on shapes (empty bodies next to labels, three label levels) they never build.",
 [L+'parser/block.rs'],
 [('flat_iter*, get*, len_blocks, label_lens*','lib/src/parser/block.rs')],
 ['Blocks::flat_iter','Blocks::flat_iter_mut','Blocks::flat_into_iter','Blocks::get','Blocks::len_blocks','Blocks::label_lens'])
p('C11','Deserialization never panics',
 "Deserializing any HCL text, or any parsed body, block, object or expression, into any Rust type returns Ok or Err and never panics, whatever the document contains: unsupported features such as labelled blocks or expression object keys, and clashes between attributes and blocks, are errors.",
 ['inputs','programs'],"every document and every target type following serde's calling protocol",
 "Tests deserialize a few documents into matching types; unsupported combinations are reached only by documents and types nobody wrote.",
 [L+'serde/de.rs',L+'serde/de/body.rs',L+'serde/de/block.rs',L+'serde/de/object.rs',L+'serde/de/expression.rs',L+'parser/literals/key.rs'],
 [('Deserializer / MapAccess implementations','lib/src/serde/de/*.rs')],
 ['serde::from_str','Expression as Deserializer','BlockBody as Deserializer'])
p('C12','Deserialization delivers each key once and rejects duplicates',
 "When deserializing a body or an object, every attribute, block type and object element is offered to the visitor exactly once, with its own key paired with its own value. A key that occurs twice (two attributes, an attribute and a block type, or two object elements) is an error, never a silent choice, and blocks of one type are delivered together without losing any.",
 ['inputs','programs'],"every body and object, every visitor",
 "Tests use documents with a few distinct keys; pairing and duplicate handling depend on order and repetition.",
 [L+'serde/de/body.rs',L+'serde/de/object.rs'],
 [('MapAccess, ObjectMapAccess, build_map_acces_iter','lib/src/serde/de/body.rs, lib/src/serde/de/object.rs')],
 ['serde::from_str'],
 [('seen / seen_keys','keys already delivered','lib/src/serde/de/body.rs, object.rs'),('value / expression','value of the key delivered last','lib/src/serde/de/body.rs, object.rs')])
p('C13','Each expression kind deserializes as its own kind',
 "null deserializes as unit or None, booleans as bool, strings as strings with borrowed text staying borrowed, tuples as sequences of all their elements, objects as maps, floats as f64, non-negative integers over the whole u64 range and negative integers over the whole i64 range. Values that do not fit are an error, a fixed-length tuple only accepts exactly that many elements, and any non-null value is Some.",
 ['inputs','programs'],"every expression and block, every requested target kind",
 "Tests sample one or two values per kind; the range boundaries, lengths and kinds form an unbounded product.",
 [L+'serde/de.rs',L+'serde/de/expression.rs',L+'serde/de/block.rs',L+'serde/de/body.rs',L+'parser/literals/key.rs'],
 [('deserialize_number/string/tuple/object and Deserializer for Expression','lib/src/serde/de.rs, lib/src/serde/de/expression.rs')],
 ['Expression as Deserializer'])
p('C14','Equality, hashing and borrowing agree',
 "For every key-like type (keys, block labels, object element identifiers) and every hashable type of the crate, values that compare equal hash equally, and types that can be looked up by string hash, and for keys and labels also compare, exactly like that string, so a lookup by string finds the entry. Equality of composite types compares every part.",
 ['inputs','programs'],"every pair of values of each hashable or string-borrowable type",
 "The contract ranges over all pairs of values; tests look up a few keys.",
 [L+'parser/literals/key.rs',L+'parser/block.rs',L+'parser/object.rs',L+'parser/number.rs',L+'lib.rs'],
 [('PartialEq / Hash / Borrow implementations','lib/src/parser/literals/key.rs, block.rs, object.rs, number.rs')],
 ['HashMap lookups by &str'])
p('C15','Numbers keep their sign, text and kind',
 "A parsed or converted number keeps its complete literal text and a correct sign flag; it is an integer exactly when it has neither fraction nor exponent, unsigned exactly when also non-negative. Every as_* conversion evaluates the full literal and reports failure instead of wrapping or truncating; conversion from every value of every integer type, including the minimum, succeeds; equality never equates numbers of different sign or magnitude beyond float rounding.",
 ['inputs'],"every numeric literal and every value of every primitive numeric type",
 "Tests convert a few numbers; boundaries (minimum values, signs, exponents, u64 and i128 ranges) are value-dependent.",
 [L+'parser/number.rs',L+'parser/literals/number.rs'],
 [('Number::new/From impls/as_*/PartialEq, FromStr for literals::Number','lib/src/parser/number.rs, lib/src/parser/literals/number.rs')],
 ['Number','literals::Number'])
p('C16','Variant accessors and names match the stored variant',
 "Each accessor of Value, BodyElement, OneOrMany and KeyValuePairs (is_*, named accessors, borrow_*, unwrap_*) succeeds or answers true exactly for its own variant, returns that variant's own payload, and otherwise reports the expected and the actual variant name. variant_name names the variant it is called on; scalar and aggregate partition all variants.",
 ['inputs'],"every variant of every such type against every accessor",
 "The full variant-by-accessor product is not tested; a wrong name or arm shows only for the untested pairs.",
 [L+'value.rs',L+'parser/body.rs',L+'parser/expression.rs',L+'lib.rs',L+'constants.rs'],
 [('accessor methods','lib/src/value.rs, lib/src/parser/body.rs, lib/src/lib.rs')],
 ['Value','BodyElement','OneOrMany','KeyValuePairs'])
p('C17','Iterators yield every element and report exact sizes',
 "The iterators of OneOrMany and KeyValuePairs (by reference, by value, keys, values) yield exactly the stored elements, each once, in storage order, with keys paired with their own values; size hints and exact lengths equal the number of elements still to come. The iteration forms of one container agree with each other.",
 ['inputs','histories'],"every container content, every prefix of consumption",
 "Tests iterate over a few small containers and never check remaining sizes midway.",
 [L+'iter.rs',L+'lib.rs'],
 [('Iterator and IntoIterator implementations','lib/src/iter.rs'),('iter/keys/values','lib/src/lib.rs')],
 ['OneOrMany::iter','KeyValuePairs::iter','KeyValuePairs::keys','KeyValuePairs::values'])
p('C18','Lookups and edits agree between merged and unmerged form',
 "Lookups on key-value pairs find an entry exactly when its key is present, in both forms: get_single and indexing return the first match, get returns all matches in order in the unmerged form and the single one in the merged form. Lengths count every entry, extending adds every given entry, and borrowed-key views contain every entry under all its label parts.",
 ['inputs','histories'],"every content, key and form",
 "Tests look up a few keys in one form each; agreement needs both forms over all contents.",
 [L+'lib.rs',L+'iter.rs',L+'value.rs'],
 [('KeyValuePairs::{len,get,get_single,extend,index}, Block::borrow_keys','lib/src/lib.rs, lib/src/iter.rs, lib/src/value.rs')],
 ['KeyValuePairs::get','KeyValuePairs::get_single','Index','Extend'])
p('C19','Errors are reported faithfully',
 "No failure inside parsing, merging, reading, deserializing or writing is dropped or turned into success: it reaches the caller as an Err of the matching kind. Internal error codes convert back to exactly the kind they came from, I/O, UTF-8, integer and float errors keep their own variant, an invalid code point is reported as such wherever it occurs in the document, and converting a low-level parse error keeps its severity and every entry of its trace.",
 ['inputs','fault_sequences'],"every failure at every point of every operation",
 "Tests assert is_err for a few inputs; which error arrives, and whether one is swallowed, is not enumerated.",
 [L+'errors.rs',L+'parser.rs',L+'value.rs',L+'serde/de.rs','cli/src/main.rs','cli/src/error.rs'],
 [('Error conversions and InternalKind table','lib/src/errors.rs'),('? propagation','all fallible functions')],
 ['Error','serde::de::Error','fecl exit status'])
p('C20','String escapes decode to the documented characters',
 "In quoted strings the escapes a b f n r t v backslash quote question-mark decode to their C control characters or themselves, one to three octal digits and x/u/U followed by at most 2/4/8 hex digits decode to that code point, and every other character stands for itself. Values that are not code points are rejected, an unescaped quote ends the string, and labels and keys never span lines while quoted expression strings may.",
 ['inputs'],"every string literal",
 "The escape table times all digit strings is not enumerated by the tests.",
 [L+'parser/string.rs'],
 [('unescape, hex_to_unicode, octal_to_string, hex_to_string, legal_string_literal_*','lib/src/parser/string.rs')],
 ['string','string_literal'])
p('C21','Comments, whitespace and newlines are recognised as specified',
 "Inline whitespace is any run of spaces, tabs and /* */ comments; general whitespace adds newlines and # and // line comments; a newline is LF or CRLF, optionally ended by a line comment or preceded by an inline comment. A # or // comment extends to, and includes, its line end, an inline comment to the first */, and nothing else is ever skipped.",
 ['inputs'],"every text between tokens",
 "These are regular languages over all texts; tests try a dozen samples.",
 [L+'parser/whitespace.rs'],
 [('inline_comment, hash_comment, slash_comment, line_comment, inline_whitespace, whitespace, newline','lib/src/parser/whitespace.rs')],
 ['whitespace','inline_whitespace','newline','line_comment'])
p('C22','Identifiers, keywords and numbers have the specified lexical form',
 "An identifier starts with a Unicode ID_Start character or underscore and continues with ID_Continue characters or dashes, taken maximally; a number is an optional sign, digits with optional fraction (or a fraction alone) and an optional exponent with optional sign; null, true and false are the only keyword literals and denote their own values. Keys and block labels are identifiers or single-line quoted strings, kept as the form they were written in.",
 ['inputs'],"every token text",
 "Tests sample a few tokens of each class out of the whole of Unicode.",
 [L+'parser/identifier.rs',L+'parser/number.rs',L+'parser/boolean.rs',L+'parser/null.rs',L+'parser/literals/key.rs',L+'parser/literals/number.rs',L+'parser/block.rs',L+'parser/object.rs'],
 [('token productions','lib/src/parser/{identifier,number,boolean,null}.rs, literals/')],
 ['identifier','number','boolean','null','key','block_label'])
p('C23','The grammar accepts exactly the documented productions',
 "Configuration documents follow: a body is attributes, blocks and one-line blocks each ended by a newline or end of input; an attribute is identifier = expression on one line; a block is identifier, labels, braces around a newline and a body, or one optional attribute; tuples and objects are bracketed, separated lists with the documented separators and optional trailing one; expressions are null, number, boolean, string or heredoc, tuple, object or a parenthesised expression. The value grammar follows its corresponding productions.",
 ['inputs'],"every document over the token alphabet, both grammars",
 "A grammar is a language over all documents; the tests accept or reject about a hundred of them.",
 [L+'parser.rs',L+'parser/body.rs',L+'parser/attribute.rs',L+'parser/block.rs',L+'parser/object.rs',L+'parser/tuple.rs',L+'parser/expression.rs'],
 [('grammar productions','lib/src/parser/*.rs')],
 ['parse_str','value::from_str'])
p('C24','Heredocs end at their marker and lose only indentation',
 "A heredoc's content runs from the line after its marker to the first later line consisting only of optional blanks and the same marker, and excludes the line breaks adjacent to the markers. Only the indented form removes anything, and then at most as many leading spaces per line as the end marker is indented by; every other character and every line is preserved.",
 ['inputs'],"every marker, body and indentation",
 "Tests try a few bodies; lines shorter than the indentation, markers inside text and blank lines are unbounded.",
 [L+'parser/string.rs'],
 [('heredoc_begin, heredoc_end, heredoc_string, unindent_heredoc','lib/src/parser/string.rs'),('take_till_match','lib/src/utils.rs')],
 ['string','heredoc_string'])
p('C25','Safe indices stay in bounds and on character boundaries',
 "For every supported input type, safe_indices yields only positions inside the input and, for text, only character boundaries, in increasing order without omission. take_till_match returns the earliest position where the inner parser succeeds together with the text before it, and fails without panicking when there is none.",
 ['inputs','programs'],"every input value of every supported type, every inner parser",
 "Tests scan a few ASCII strings with one matching parser.",
 [L+'utils.rs'],
 [('SafeIndexing implementations and take_till_match','lib/src/utils.rs')],
 ['utils::SafeIndexing','take_till_match!'])
p('C26','The fecl tool writes output only for a successfully parsed input',
 "fecl parse creates or writes its output only after the input was read and parsed successfully, and any failure ends the process with a non-zero exit status and a message. A path of - means standard input or output and any other path that file, input is read from the first and output written to the second argument, and merging is done exactly unless --no-merge is given. The command named parse is declared with these arguments and leads there; any other command is an error.",
 ['inputs','fault_sequences','configurations'],"every argument combination, input and I/O failure",
 "There are no tests of the tool.",
 ['cli/src/main.rs','cli/src/error.rs'],
 [('main, run_subcommand, run_parse, input_reader, output_writer, make_parser','cli/src/main.rs')],
 ['fecl parse'])
p('C27','Parsing and deserialization have no side effects',
 "The library never writes to standard output or error, touches files, the network, the environment, the clock or other processes, and keeps no mutable global or thread-local state; its only interaction is reading from a reader it was given. It contains no unsafe code, and its tree, value, error and index types can be sent to and shared between threads.",
 ['inputs','schedules','histories'],"every call in every order from any number of threads",
 "A side effect or shared state on one path is invisible to tests that only look at return values.",
 [L+'lib.rs',L+'parser.rs',L+'value.rs',L+'parser/number.rs',L+'utils.rs'],
 [('effects reachable in the resolved call graph','lib/src/**'),('auto traits of public types','lib/src/**')],
 ['all public functions'])
p('C28','Every feature configuration works and exposes the same core API',
 "The library builds with default features, with serde disabled and with all features, and the command line tool builds against it. The parsing, value and query API is identical in all of them; only the serde module and its re-export depend on the serde feature.",
 ['configurations'],"every combination of cargo features",
 "The test suite builds only the default feature set.",
 [L+'lib.rs','lib/Cargo.toml',L+'parser/literals/key.rs'],
 [('cfg(feature = "serde") items','lib/src/lib.rs, lib/src/parser/literals/key.rs')],
 ['cargo features'])
p('C29','Recursive length and merge-state queries visit every part',
 "len_scalar equals the number of scalars (nulls included) in the whole value tree, is_merged is true exactly when every nested set of key-value pairs is merged and is_unmerged exactly when every one is unmerged, and len and is_empty count the immediate elements. They terminate without panicking for every variant and agree with each other for owned, borrowed and container forms.",
 ['inputs'],"every value tree",
 "Tests count scalars in a few trees; a skipped variant or level shows only for trees containing it.",
 [L+'lib.rs',L+'value.rs'],
 [('ScalarLength and Mergeable implementations','lib/src/lib.rs, lib/src/value.rs')],
 ['ScalarLength','Mergeable','Value::len'])
p('C30','The syntax tree contains everything that was parsed',
 "Every identifier, label, expression, nested element and flag recognised by a successful parse appears in the resulting tree, in source order, in its own place: attribute names with their own expressions, block types with all their labels and bodies, every tuple and object element, every number part. Each construct becomes the tree variant of its own kind, in both the configuration and the value grammar.",
 ['inputs'],"every successfully parsed document",
 "Tests compare a few trees; dropping, swapping or misclassifying a part shows only in documents that contain it.",
 [L+'parser.rs',L+'parser/body.rs',L+'parser/attribute.rs',L+'parser/block.rs',L+'parser/object.rs',L+'parser/tuple.rs',L+'parser/expression.rs',L+'parser/number.rs',L+'parser/string.rs',L+'parser/literals/key.rs'],
 [('result expressions of the productions','lib/src/parser/*.rs do_parse!/alt! actions')],
 ['parse_str','value::from_str'])
p('C31','Conversions into expressions and values keep kind and content',
 "Converting a Rust value (unit, booleans, every integer and float type, strings, vectors, maps, keys, options) into an Expression, Value, Key, block label, object identifier or body element, directly, by reference or by collecting, yields the variant of that kind holding exactly the given content, all of it and in order. Converting back through the accessors gives the same content.",
 ['inputs','programs'],"every value of every convertible type",
 "Tests convert one literal per type.",
 [L+'value.rs',L+'parser/expression.rs',L+'parser/object.rs',L+'parser/block.rs',L+'parser/body.rs',L+'parser/literals/key.rs',L+'parser/literals/number.rs'],
 [('From / FromIterator implementations and new_* constructors','lib/src/value.rs, lib/src/parser/expression.rs')],
 ['From','FromIterator','Value::new_*','Expression::new_*'])
p('C32','Number equality is an equivalence relation',
 "Equality of numbers is reflexive, symmetric and transitive for every triple of numbers, including infinities, NaN and nearly equal floats.",
 ['inputs'],"every triple of numbers",
 "It quantifies over all triples of floating point values.",
 [L+'parser/number.rs'],[('PartialEq for Number','lib/src/parser/number.rs')],['Number == Number'])
p('C33','Float literals decode to the nearest representable value',
 "Every float literal converts to the IEEE double (or single) nearest to its decimal value, and integers too large for i64 in the value grammar become the nearest double.",
 ['inputs'],"every numeric literal",
 "It quantifies over all literals and their rounding.",
 [L+'parser/number.rs',L+'parser/literals/number.rs'],[('str::parse::<f64>','lib/src/parser/number.rs')],['Number::as_f64'])
p('C34','Parsing time and memory are linear in the input size',
 "The time and memory used by a parse are bounded by a constant times the length of the input.",
 ['inputs'],"every input",
 "A complexity bound over all inputs cannot be sampled.",
 [L+'parser.rs',L+'utils.rs',L+'parser/string.rs'],[('parsers and take_till_match','lib/src/parser/*.rs, lib/src/utils.rs')],['parse_str'])
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(q)+'\n' for q in P))
print(len(P))
