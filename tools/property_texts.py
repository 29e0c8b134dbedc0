p("C01", "Parsing never raises",
  "For every input string, parsing a resource and parsing a single entry return an AST normally; no exception escapes to the caller. Whatever is malformed is reported as a Junk entry carrying an annotation, and well-formed parts are still returned.",
  ["inputs"], "every str passed to the resource parser and to the single-entry parser, spans on or off",
  "Tests parse a fixed set of fixture files; an exception only shows on the one malformed prefix or end-of-input position that reaches an unguarded operation.",
  [SY + "parser.py", SY + "stream.py", SY + "errors.py", SY + "ast.py"],
  [("one handler turns every parse error into Junk", SY + "parser.py get_entry_or_junk"),
   ("reads past the end yield None instead of raising", SY + "stream.py get")],
  ["fluent.syntax.parse", "FluentParser.parse", "FluentParser.parse_entry"])
p("C02", "Parsing always terminates by consuming input",
  "For every input string the parser terminates: every repetition it performs consumes at least one character of the source or is bounded by a constant, and every recursive descent consumes at least one character before it can recurse again. The position never moves past the end of the source.",
  ["inputs"], "every str",
  "A non-terminating prefix is one particular byte sequence; a test that hits it hangs rather than reports, and fixtures contain none.",
  [SY + "parser.py", SY + "stream.py"],
  [("cursor advances monotonically; entry recovery skips to a later line", SY + "stream.py skip_to_next_entry_start")],
  ["FluentParser.parse"],
  [("index / peek offset", "cursor into the source", SY + "stream.py ParserStream")])
p("C03", "Every parsed node carries a correct source span",
  "With spans enabled, every syntax node returned by the parser has a span with 0 <= start <= end <= length of the source, and the span of a node lies within the span of the node that contains it. With spans disabled no node has one.",
  ["inputs", "configurations"], "every str, spans on and off, every node kind",
  "Fixtures pin the spans of the sampled constructs only; a node kind or an error path that skips or misplaces the span is unobserved unless sampled.",
  [SY + "parser.py", SY + "ast.py"],
  [("span added when a production returns", SY + "parser.py with_span"),
   ("text merging recomputes spans", SY + "parser.py dedent"),
   ("attached comments extend the entry span", SY + "parser.py parse")],
  ["FluentParser.parse"])
p("C04", "Junk preserves the rejected source verbatim and locates the error",
  "When an entry cannot be parsed, the resulting Junk's content is exactly the source text from where that entry began up to where parsing resumes, and its span delimits exactly that text. It carries exactly one annotation, with the error's code, arguments and message, positioned inside the junk, and parsing of a resource resumes with the entry that follows.",
  ["inputs"], "every str containing at least one malformed entry",
  "Which characters end up in Junk depends on where the error was detected and on the recovery scan; fixtures sample a few combinations.",
  [SY + "parser.py", SY + "stream.py"],
  [("slice between entry start and recovery point", SY + "parser.py get_entry_or_junk")],
  ["Junk.content", "Junk.span", "Junk.annotations"])
p("C05", "Identifiers, numbers, strings, text in the AST are lexically valid",
  "For every input, each identifier in a parsed AST matches [a-zA-Z][a-zA-Z0-9_-]*, each function name [A-Z][A-Z0-9_-]*, each number literal -?[0-9]+(.[0-9]+)? with ASCII digits. String literals contain no raw quote or line break and only the escapes \\\\, \\\", \\uXXXX and \\UXXXXXX; text elements contain no braces. A CRLF line break in the source never reaches text, comment or literal content as CR LF.",
  ["inputs"], "every str, every leaf node kind",
  "The acceptance sets range over all Unicode characters; a test tries a handful (a Unicode digit or letter that slips through a broadened test is not among them).",
  [SY + "parser.py", SY + "stream.py"],
  [("character-class predicates", SY + "stream.py is_char_id_start, take_id_char, take_digit, take_hex_digit"),
   ("CRLF folded when reading", SY + "stream.py char_at, next, peek")],
  ["Identifier.name", "NumberLiteral.value", "StringLiteral.value", "TextElement.value", "BaseComment.content"])
p("C06", "A parsed AST never contains a malformed construct",
  "For every input: a message has a value or at least one attribute; terms, attributes and variants have a value; a select expression has at least one variant, exactly one of them marked default, and a selector that is a string, number, variable, function call or term attribute. A placeable never directly holds a term attribute; in call arguments, named arguments have unique names and no positional argument follows one in the source.",
  ["inputs"], "every str",
  "These are absence claims over all inputs; a test can only show that particular bad inputs are rejected.",
  [SY + "parser.py"],
  [("checks before node construction", SY + "parser.py get_message, get_term, get_variants, get_expression, get_call_arguments")],
  ["FluentParser.parse", "FluentParser.parse_entry"])
p("C07", "Every syntax error has a catalogued code and a human-readable message",
  "Every error the parser can report carries an error code for which a specific human-readable message exists, and every detail the message quotes is supplied where the error is reported.",
  ["inputs", "programs"], "every place the parser reports an error",
  "Error sites not reached by a fixture would only fail (or show a bare code) in the field.",
  [SY + "parser.py", SY + "stream.py", SY + "errors.py"],
  [("code to message table", SY + "errors.py get_error_message")],
  ["Annotation.code", "Annotation.message"])
p("C08", "Comments are never lost and attach only to the adjacent entry",
  "Every comment parsed from a resource appears in the AST exactly once: a regular comment immediately followed (no blank line) by a message or term is attached to that entry, and in every other case it stands alone in the body, in source order. Group and resource comments are never attached.",
  ["inputs"], "every sequence of comments, blank lines, entries, junk and end of input",
  "Attachment is a small state machine over the sequence of entries; fixtures sample a few sequences.",
  [SY + "parser.py"],
  [("stash-and-decide state machine", SY + "parser.py parse")],
  ["Resource.body", "Message.comment", "Term.comment"],
  [("stashed comment", "comment waiting for the next entry", SY + "parser.py parse")])
p("C09", "Serialization covers every construct and drops no content",
  "The serializer produces output for every kind of node a parsed AST can contain, in every position it can occur, and whenever a content-bearing field is present (identifier, value, attributes, comment, variants with the default marker, selector, call arguments, literal value, and junk when requested) its content is part of the output with the delimiters of the Fluent syntax. Junk is left out only when junk output is not requested.",
  ["inputs"], "every AST the parser can produce",
  "Each test serializes one shape; a field dropped in one combination (a term reference with attribute and arguments, say) is visible only for that combination.",
  [SY + "serializer.py", SY + "ast.py"],
  [("dispatch over node kinds", SY + "serializer.py serialize_entry, serialize_element, serialize_expression")],
  ["FluentSerializer.serialize", "FluentSerializer.serialize_entry", "fluent.syntax.serialize"])
p("C10", "Serialization changes text only by indenting after line feeds",
  "Text, comment and literal content reaches the serialized output character for character; the only change ever made to pattern text is that indentation is inserted directly after a line feed. No other character (vertical tab, form feed, NEL, U+2028, a lone CR, ...) is treated as a line boundary, trimmed, re-cased or normalized.",
  ["inputs"], "every text content, over all of Unicode",
  "The characters on which library line-splitting and trimming differ from the Fluent grammar are exotic; tests use ASCII text with LF.",
  [SY + "serializer.py"],
  [("re-indentation of multiline content", SY + "serializer.py indent_except_first_line"),
   ("comment prefixing per line", SY + "serializer.py serialize_comment")],
  ["fluent.syntax.serialize"])
p("C11", "Reading operations never modify the AST",
  "Serializing, comparing, cloning, converting to JSON, visiting with a read-only visitor, adding a resource to a bundle, looking messages up and formatting them leave every syntax tree they are given unchanged, and a clone shares no mutable part with its original. One parsed resource can therefore be used by any number of bundles and tools.",
  ["inputs", "histories"], "every AST, every sequence of such operations",
  "A stray in-place edit shows only when the same tree is used again afterwards, in an order tests do not sample.",
  [SY + "ast.py", SY + "serializer.py", SY + "visitor.py", RT + "prepare.py", RT + "resolver.py", RT + "bundle.py"],
  [("functional style; compile copies field maps", RT + "prepare.py compile"),
   ("deep clone", SY + "ast.py BaseNode.clone")],
  ["serialize", "BaseNode.equals", "BaseNode.clone", "BaseNode.to_json", "Visitor.visit", "FluentBundle"])
p("C12", "Every AST node survives clone and JSON conversion with all its fields",
  "For every node class, each stored field is a constructor keyword of the same name and is stored as given (an omitted list becomes an empty list), so rebuilding a node from its fields, by cloning or from its JSON form, yields an equal node of the same class. JSON conversion covers every field and names the node's class.",
  ["inputs", "programs"], "every node class and every combination of field values, including empty and missing ones",
  "Tests convert a few sample resources; a field that is dropped, renamed or defaulted wrongly in one class is seen only when that class carries that value.",
  [SY + "ast.py"],
  [("constructor keywords mirror stored fields", SY + "ast.py node classes"), ("clone / to_json / from_json iterate over all fields", SY + "ast.py BaseNode")],
  ["BaseNode.clone", "BaseNode.to_json", "from_json"])
p("C13", "Node equality compares class and every field",
  "Two nodes are equal exactly if they have the same class and all their fields, apart from the explicitly ignored ones, are equal, recursively and in order, at every depth. The ignored fields apply at every level, and nothing else is skipped.",
  ["inputs"], "every pair of AST nodes and every set of ignored fields",
  "Equality is a claim over all pairs; tests compare a few, always of the same class at the top level.",
  [SY + "ast.py"], [("field-by-field comparison", SY + "ast.py BaseNode.equals, scalars_equal")],
  ["BaseNode.equals"])
p("C14", "Visitors reach every node; transformers may replace or remove any node",
  "By default a visitor reaches every node below the one it is given exactly once, whatever field it is in, and dispatches each to the handler for its class. A transformer stores the handler's result in place of each child, keeps results that are falsy but not None, removes the child when the result is None, and completes without error whichever children are removed.",
  ["inputs", "programs"], "every AST and every handler behaviour (return the node, another node, None)",
  "Tests use two small visitors and one transformer that never removes anything.",
  [SY + "visitor.py"], [("generic traversal over all fields", SY + "visitor.py Visitor.generic_visit, Transformer.generic_visit")],
  ["Visitor.visit", "Transformer.visit"])

p("C20", "Formatting never raises and always yields a string",
  "For every message obtained from a bundle, every argument values (supported type or not) and every custom function that may raise or return anything, formatting returns a pair of a string and a list of errors; no exception escapes. Broken references, missing or unsupported arguments, failing functions, invalid formatting options and reference cycles all degrade to a fallback inside the string.",
  ["inputs", "fault_sequences"], "every message pattern, argument mapping and custom function set",
  "Tests exercise single faults one at a time; the fault that escapes depends on where in the nesting it happens and on the exception type.",
  [RT + "bundle.py", RT + "resolver.py", RT + "types.py", RT + "builtins.py"],
  [("handler around resolution", RT + "bundle.py format_pattern"),
   ("function call guard", RT + "resolver.py FunctionReference"),
   ("reference lookup guard", RT + "resolver.py resolveEntryReference")],
  ["FluentBundle.format_pattern"])
p("C21", "Every fallback is accompanied by a reported error",
  "Whenever formatting substitutes a fallback for something that could not be resolved (unknown message, term, attribute, function or argument, message without value, unsupported argument type, cycle, failed function, missing default variant, exceeded limit), it appends an error describing it to the returned error list. The one exception is an argument that a term was not given, which is not an error.",
  ["inputs"], "every failing construct in every nesting position",
  "Each fallback path needs its own failing input; several have no test that looks at the error list.",
  [RT + "resolver.py", RT + "bundle.py"],
  [("errors appended beside each fallback", RT + "resolver.py")],
  ["FluentBundle.format_pattern errors"],
  [("error list", "errors collected during one format call", RT + "resolver.py ResolverEnvironment")])
p("C22", "Reference cycles are always detected, and only real cycles are",
  "Any cyclic chain of message, term or attribute references, of any length and whatever the shape of the patterns involved, is cut off with a cyclic-reference error instead of recursing without bound. Referencing the same entry several times without a cycle never reports one, also after an earlier reference in the same call failed.",
  ["inputs", "fault_sequences"], "every reference graph, including references whose evaluation failed part-way",
  "Cycles differ in length, pattern shape and the position of the failing part; tests cover three small ones of the same pattern shape.",
  [RT + "resolver.py", RT + "prepare.py"],
  [("set of patterns being resolved", RT + "resolver.py Pattern.__call__")],
  ["FluentBundle.format_pattern"],
  [("active patterns", "patterns currently being resolved", RT + "resolver.py ResolverEnvironment")])
p("C23", "Expansion is bounded against billion-laughs messages",
  "Within one format call the total number of pattern parts expanded is limited and every interpolated string is limited in length, along every path of references, select expressions and term calls. The limit is checked before a pattern's parts are expanded, the count is never reset or skipped during the call, and exceeding either limit aborts the call with an error.",
  ["inputs"], "every message structure and argument lengths",
  "Two tests cover one expansion tree each; a path on which the count or check is skipped needs a specially shaped bomb.",
  [RT + "resolver.py", RT + "bundle.py"],
  [("part counter", RT + "resolver.py Pattern.__call__"), ("length check", RT + "resolver.py resolve")],
  ["FluentBundle.format_pattern"],
  [("part count", "parts expanded in this call", RT + "resolver.py ResolverEnvironment")])
p("C24", "Terms see only the arguments passed to them",
  "While a term is being resolved, variables refer only to the named arguments given in that term reference (none if it has no argument list), never to the caller's arguments, including in nested messages and terms and in the term's attributes. Once the term reference has been resolved, normally or not, the caller's arguments are in force again.",
  ["inputs"], "every nesting of term references, with and without argument lists, inside selectors, arguments and attributes",
  "Leakage shows only when names coincide across several nesting levels, or after a failure inside the term.",
  [RT + "resolver.py"], [("swap and restore of the current arguments", RT + "resolver.py modified, modified_for_term_reference, TermReference")],
  ["FluentBundle.format_pattern"],
  [("current arguments", "argument scope in force", RT + "resolver.py CurrentEnvironment")])
p("C25", "Interpolated values are bidi-isolated exactly when isolation is on",
  "With isolation on, the result of every placeable that shares its pattern with other elements and is not a mere string literal is enclosed in exactly one FSI ... PDI pair, in that order, whatever the placeable's value. With isolation off, formatting never inserts either character; a placeable that is the whole pattern adds none itself.",
  ["inputs", "configurations"], "every pattern shape and value type, isolation on and off",
  "Tests check a few value types; an unbalanced or missing mark depends on value type and pattern shape.",
  [RT + "resolver.py", RT + "prepare.py"],
  [("marks around resolved placeables", RT + "resolver.py Placeable"), ("single-placeable patterns compiled separately", RT + "prepare.py compile_Pattern")],
  ["FluentBundle.format_pattern"])
p("C26", "Select expressions choose the first matching variant, else the default",
  "A select expression evaluates its selector once and yields exactly one variant: the first in source order whose key matches, or the default variant if none matches, and only that variant's value is evaluated. A numeric selector of any supported numeric type (int, float, Decimal) matches a numeric key by equality and an identifier key by the plural category of the bundle's locale (ordinal category if the number is of ordinal type); a failed selector matches nothing.",
  ["inputs"], "every selector value and every list of variants",
  "The outcome depends on selector type, key kinds and variant order jointly; tests cover ints and floats in typical orders.",
  [RT + "resolver.py"], [("variant scan", RT + "resolver.py SelectExpression"), ("key matching", RT + "resolver.py match")],
  ["FluentBundle.format_pattern"])
p("C27", "A bundle serves the right definition, whatever was looked up before",
  "When an identifier is defined more than once, the first definition added is served, unless a later resource is added with overrides allowed, in which case the latest is served from then on, both directly and through references. What a lookup returns depends only on the resources added so far, never on which lookups or format calls happened before; entries of other kinds are ignored.",
  ["histories"], "every interleaving of adding resources (with and without overrides), lookups and format calls",
  "Tests add resources first and look up afterwards; the interesting histories interleave them.",
  [RT + "bundle.py"], [("definition maps with first-wins insertion", RT + "bundle.py add_resource"), ("lazily filled compilation cache", RT + "bundle.py _lookup")],
  ["FluentBundle.add_resource", "FluentBundle.get_message", "FluentBundle.format_pattern"],
  [("compiled cache", "compiled form of looked-up entries", RT + "bundle.py FluentBundle")])
p("C28", "Messages and terms are separate namespaces; terms are private",
  "Looking up a message succeeds exactly for the identifiers for which the bundle reports having a message, and otherwise raises a lookup error; terms can never be obtained through it, under any spelling and at any time. A message and a term with the same name never stand in for one another.",
  ["inputs", "histories"], "every identifier string (including ones starting with the term sigil) and every history of lookups and references",
  "The failing case needs a reference to the term to be resolved first and a lookup with an unusual identifier second.",
  [RT + "bundle.py", RT + "resolver.py"], [("separate maps, shared cache keyed by kind and id", RT + "bundle.py _lookup")],
  ["FluentBundle.has_message", "FluentBundle.get_message"])
p("C29", "Formatting options never leak into shared data",
  "Creating or formatting a number or date with options modifies neither the value it was derived from, nor the default options, nor the locale data shared by the whole process. Options given explicitly override the inherited ones one by one, and all other inherited options are kept.",
  ["histories", "inputs"], "every sequence of number/date creations and formats, in any order, across bundles",
  "Leaks through shared objects show as a wrong result of an unrelated later call; tests check two such pairs.",
  [RT + "types.py"], [("copy before modification", RT + "types.py clone_pattern, merge_options")],
  ["fluent_number", "fluent_date", "FluentNumber.format", "FluentDateType.format"],
  [("default options / locale patterns", "process-wide shared objects", RT + "types.py")])
p("C30", "Native values keep their value and kind when passed as arguments",
  "Every int, float, Decimal, datetime and date argument is wrapped as the Fluent type of its own most specific kind (a datetime is never treated as a date), with every component of its value preserved: for datetimes all of year to microsecond, the time zone and the fold. Values already carrying formatting options keep them; any other value is passed through unchanged.",
  ["inputs"], "every argument value, including subclasses (bool, datetime) and already wrapped values",
  "The dropped component matters only for values that use it (microseconds, fold, tzinfo, options on a wrapped value).",
  [RT + "utils.py", RT + "types.py"], [("type dispatch", RT + "utils.py native_to_fluent"), ("field-wise copy", RT + "types.py FluentDateTime.from_date_time, FluentDate.from_date")],
  ["FluentBundle.format_pattern args", "fluent_number", "fluent_date"])
p("C31", "Every declared formatting option is honoured, warned about or rejected",
  "Each declared number option influences number formatting or plural matching, and each option declared as supported for dates influences date formatting; a date option that is accepted but not implemented causes a warning when used. An option name that is not declared, or a value outside the declared choices, is rejected when the value is created.",
  ["configurations", "inputs"], "every option name and combination",
  "Each option needs its own test and several have none; silently ignoring an option looks like success.",
  [RT + "types.py"], [("option classes with validators", RT + "types.py NumberFormatOptions, DateFormatOptions"), ("option consumers", RT + "types.py _apply_options, format")],
  ["NUMBER()", "DATETIME()", "fluent_number", "fluent_date"])
p("C32", "Localization falls back through locales in order",
  "Formatting a message through the localization returns the result of the first bundle, in order of locales and then of the loader's results, that has the message with a value, and the message identifier itself if there is none. Bundles are created lazily, each at most once, in that order, and each is built from the locale it is for followed by the remaining fallback locales and from all of its resources in order.",
  ["inputs", "histories"], "every list of locales, loader behaviour and sequence of requests (including requests interleaved with iteration)",
  "Depends on which bundles exist and which were created by earlier requests; one test covers one arrangement.",
  [RT + "fallback.py"], [("lazy shared bundle sequence", RT + "fallback.py _bundles, _iterate_bundles")],
  ["FluentLocalization.format_value"],
  [("bundle cache", "bundles created so far", RT + "fallback.py FluentLocalization")])
p("C33", "The resource loader yields what exists, in order, and closes files",
  "For each root in order the loader parses exactly the requested resources that exist there as files, in request order, decoded as UTF-8, with the locale substituted in root and resource name, and yields them as one list unless it would be empty. Files that do not exist are skipped without error, and every file opened is closed again even if reading it fails.",
  ["inputs", "fault_sequences"], "every set of roots, resource ids, existing files and read failures",
  "Tests mock the file system; handles left open and failures while reading are invisible there.",
  [RT + "fallback.py"], [("existence check, read, parse, yield", RT + "fallback.py FluentResourceLoader.resources")],
  ["FluentResourceLoader.resources"])
p("C34", "Formatting leaves no trace: bundles and calls are independent",
  "A format call changes no state that outlives it except caches that do not affect results: not the bundle, not its compiled messages, not its functions, not the caller's arguments and not any module-level data. The functions added to one bundle never become visible in another, and each call starts with empty errors and counters.",
  ["histories"], "every sequence of format calls on any number of bundles",
  "State leaking from one call shows only in a later call of a particular kind.",
  [RT + "bundle.py", RT + "resolver.py", RT + "types.py", RT + "builtins.py", RT + "prepare.py"],
  [("fresh environment per call", RT + "bundle.py format_pattern"), ("functions copied per bundle", RT + "bundle.py __init__")],
  ["FluentBundle.format_pattern"])
p("C35", "Every parsable construct can be compiled and evaluated",
  "For every construct the grammar allows in a message or term, the runtime has an evaluator that accepts every field the parsed node carries, and compilation keeps all elements, variants, arguments and attributes in order without dropping or duplicating any. Nothing the parser can produce inside an entry is left unevaluated.",
  ["inputs"], "every message or term the parser can produce",
  "A construct without evaluator fails only when a message using it in that position is formatted.",
  [RT + "prepare.py", RT + "resolver.py", SY + "ast.py"],
  [("class-name driven compilation", RT + "prepare.py Compiler.compile")],
  ["FluentBundle.get_message", "FluentBundle.format_pattern"])

p("C40", "Syntax highlighting reproduces the source exactly",
  "For every text, concatenating the token texts produced by the highlighter gives the text back exactly, with each token reported at the position where it occurs and positions never going backwards. Every leaf of the syntax tree is emitted with a token type; text between leaves is emitted as punctuation.",
  ["inputs"], "every str, including malformed Fluent",
  "Tests highlight three snippets; losing or duplicating text depends on node order, gaps and the final remainder.",
  [PG + "lexer.py"], [("gap filling between tokens", PG + "lexer.py get_tokens_unprocessed"), ("ordered traversal", PG + "lexer.py generic_tokenize")],
  ["FluentLexer.get_tokens_unprocessed"])
p("C50", "Versioned documentation is built from exactly the tagged sources",
  "When documentation for tagged releases is built, the documentation of each version is only ever built after its own tag was successfully checked out; if fetching or checking out the sources fails, the build fails instead of publishing other sources under that version. Failures of the documentation generator are not ignored either.",
  ["fault_sequences", "configurations"], "every list of tags and every failing external command",
  "The documentation tooling has no tests; the failure needs a git command that fails.",
  [DC + "build.py", DC + "tags.py"], [("checkout before each versioned build", DC + "build.py build"), ("checked subprocess calls", DC + "build.py DocBuilder.build, tags.py get_tag_infos")],
  ["fluent.docs.build.build"])
p("C51", "Documentation builds clean up and delete only what they own",
  "A documentation build deletes only below the build output directory or in the temporary checkout it created itself, and it removes that temporary checkout on every exit, including when a build step fails.",
  ["fault_sequences"], "every project list and every failing step",
  "No tests exist for the documentation tooling, and a leak needs a failing step.",
  [DC + "build.py"], [("temporary worktree", DC + "build.py build"), ("stale output removal", DC + "build.py build, ProjectBuilder.__exit__")],
  ["fluent.docs.build.build"])

p("C60", "Serializing a parsed resource and parsing it again gives the same AST",
  "For every source without junk, serializing the parsed AST and parsing the result yields an AST equal to the first one up to spans, and serializing again yields the same text.",
  ["inputs"], "every str that parses without junk",
  "Round-trip equality quantifies over all sources; fixtures sample it.",
  [SY + "parser.py", SY + "serializer.py"], [("parser and serializer", SY)], ["parse(serialize(parse(s)))"])
p("C61", "Numbers, dates and plurals are formatted as the locale prescribes",
  "Number, currency, percent, date and time formatting and plural category selection give the results CLDR prescribes for the bundle's locale and the options in force.",
  ["inputs", "configurations"], "every value, option set and locale",
  "The value space times the locales is unbounded.",
  [RT + "types.py", RT + "bundle.py"], [("Babel", RT + "types.py")], ["FluentNumber.format", "FluentDateType.format"])
p("C62", "The parser accepts exactly the Fluent 1.0 grammar",
  "A source entry is parsed to a message, term or comment exactly if it conforms to the Fluent 1.0 EBNF, and to the tree the specification's abstract grammar prescribes, including dedentation of multiline patterns.",
  ["inputs"], "every str", "Language equality over all strings; the reference fixtures sample it.",
  [SY + "parser.py", SY + "stream.py"], [("recursive descent parser", SY + "parser.py")], ["FluentParser.parse"])
p("C63", "Parsing and formatting take time linear in input and output size",
  "Parsing takes time at most linear in the length of the source, and formatting time at most linear in the number of parts expanded.",
  ["inputs"], "every input size", "Timing over unbounded inputs.",
  [SY + "parser.py", SY + "stream.py", RT + "resolver.py"], [("single-pass scanning", SY + "stream.py")], ["FluentParser.parse"])
