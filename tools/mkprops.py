#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
S = 'crates/seam/src/'
LEX, PAR, TOK, EXP, MAC = S+'parse/lexer.rs', S+'parse/parser.rs', S+'parse/tokens.rs', S+'parse/expander.rs', S+'parse/macros.rs'
HTML, XML, CSS, TXT, SEXP, ASM = (S+'assemble/%s.rs' % n for n in ('html', 'xml', 'css', 'text', 'sexp', 'mod'))
BIN, LIB, PM = S+'bin.rs', S+'lib.rs', 'crates/seam_argparse_proc_macro/src/lib.rs'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

prop('C01', 'Memory safety of expansion, parsing and generation',
 "No input text, set of included files or sequence of library calls makes the library touch memory it does not own: no use after free, dangling reference, out-of-bounds access or other undefined behaviour. This includes nodes and diagnostics that outlive the macro call, the included file or the formatter that produced them, formatters that are cloned or used repeatedly, and documents processed in several threads at once.",
 ['inputs', 'programs', 'histories', 'schedules'], 'every program, include tree, formatter call sequence and thread interleaving',
 'The tests run six small expressions without a sanitizer; the unsafe lifetime extensions only go wrong for particular nestings of macros, includes and formatters.',
 [EXP, HTML, XML, CSS, SEXP, TXT, ASM, LEX, LIB],
 [('macro calls, subcontexts and included parsers are kept alive behind raw pointers', EXP),
  ('sub-formatters are registered through raw pointers', HTML), ('unchecked UTF-8 slices', LEX), ('boxed formatters are cloned', ASM)],
 ['AddressSanitizer and Miri reports of the observer process'], 'cfg(seam_verif) leaves out an unused nightly feature so that Miri can build the crate')
prop('C02', 'Every input ends in output or a diagnostic, never a crash or a hang',
 "For every input text, include tree, command-line target and environment, as long as nesting is bounded and user macros do not recurse without end, processing finishes and yields either output or an error value whose message can be displayed. It never panics, aborts or fails to terminate, whatever the contents of strings, names, numbers, format strings, dates, patterns or embedded YAML, TOML, JSON and Markdown.",
 ['inputs', 'programs'], 'every text (any Unicode) with bounded nesting and non-recursive macros, in every target format',
 'The tests only run well-formed expressions; crashes need odd input such as an empty list, an unterminated escape or an out-of-range number.',
 [LEX, PAR, EXP, MAC, HTML, XML, CSS, ASM, PM],
 [('indexing, slicing and unwrap sites', 'all stages'), ('third-party parsers called by macros', EXP)], ['panic hook and process status of the observer'])
prop('C03', 'Reading source text into a tree loses and invents nothing',
 "Parsing yields exactly the written structure: lists, attributes (a `:keyword` and the one expression after it), strings, numbers (tokens starting with a digit, `+` or `-`) and symbols, in order, each with the whitespace that precedes it; comments (`;` to the end of the line, outside strings and names) vanish. String escapes and backslash escapes in names and keywords denote the characters they stand for, single- and triple-quoted strings end only at their own unescaped closing quotes, and everything else is kept character for character. Malformed text (unbalanced parentheses, unclosed strings, invalid escapes, a keyword without a value) is reported as an error and never silently accepted.",
 ['inputs'], 'every source text', 'The tests never inspect a parsed tree and contain no escapes, comments, multi-line strings or malformed text.',
 [LEX, PAR, TOK], [('character classes and token boundaries', LEX), ('escape handling', PAR)], ['the tree returned by the parser', 'the token stream'])
prop('C04', 'Diagnostics and node locations point at the right place',
 "Every token, node and diagnostic names the file it came from, the 1-based line and the display column where the construct starts, also after comments, multi-line strings, escaped newlines, wide or combining characters, and inside included files. A diagnostic shows that source line with the marker under the construct, and its location is that of the offending construct.",
 ['inputs', 'programs'], 'every source text and every failing program', 'No test looks at a location.',
 [TOK, LEX, PAR, EXP, ASM, S+'parse/mod.rs'], [('line and byte offset counters', LEX), ('site arithmetic', TOK), ('error display', EXP)], ['sites of tokens and nodes', 'text of displayed errors'])
prop('C05', 'S-expression and plain-text output reproduce the expanded tree',
 "S-expression output writes back every node in order with its whitespace, strings quoted and names escaped so that reading them again gives the same text, and raw strings as a `%raw` call; where whitespace separates the nodes, running that output through the tool again gives the same output. Plain-text output is the same layout with the text of strings in place of their quoted form.",
 ['inputs', 'programs'], 'every expanded tree whose names can be written (are not empty and do not call a macro)', 'The tests print trees with the debug printer, never with the formatters.',
 [SEXP, TXT, PAR], [('recursive node printing', SEXP), ('recursive node printing', TXT)], ['formatter output'])
prop('C06', 'HTML output has exactly the elements, attributes and text of the tree',
 "A list whose head is a symbol becomes an element of that name holding the attributes that directly follow the head and then the remaining nodes as children; void elements get no closing tag and must not have children, and `!` lists become declarations. Text and attribute values are escaped so that an HTML parser recovers exactly the original characters, raw strings are passed through unchanged, and whitespace is kept as written (minus the separating space before a first child on the same line). Trees that have no such reading (empty lists, non-symbol heads, stray or compound attributes) are errors.",
 ['inputs', 'programs'], 'every tree', 'No test produces HTML.', [HTML, ASM], [('node generation', HTML), ('escape_xml', ASM)], ['formatter output, re-read by an HTML parser'])
prop('C07', 'HTML elements with special content get the right kind of content',
 "Inside HTML, `style` holds CSS generated from its rules or the single given string unchanged; `script` holds S-expression text; `svg` and `math` hold XML; `title` and `textarea` hold plain text; and `pre` holds the source text between its first child and its closing parenthesis unchanged. Tag names select these in any letter case, and the surrounding tags, attributes and closing tags are as for any other element.",
 ['inputs', 'programs'], 'every tree containing these elements', 'No test produces HTML.', [HTML, CSS, XML, TXT, SEXP], [('per-tag dispatch', HTML), ('raw_text', HTML)], ['formatter output'])
prop('C08', 'Whole documents are completed without duplicating what is there',
 "In document mode HTML output gains a doctype unless a top-level one exists, and when there is neither a doctype nor a top-level `html` element it is wrapped in `html` with a `head` and a `body`, each only if the source has none; XML output gains an XML declaration unless the first node is one. Detection ignores letter case, the generated content itself is unchanged, other targets are unchanged, and an empty source gives the format's empty document.",
 ['inputs', 'configurations'], 'every combination of doctype, html, head, body and xml declaration, in any case and position', 'No test produces a document.',
 [HTML, XML, CSS, PAR], [('document()', HTML), ('document()', XML), ('tree search', PAR)], ['formatter output in document and plain mode'])
prop('C09', 'XML output is well-formed and equals the tree',
 "For every tree with XML-conforming names and characters the XML output is well-formed and an XML parser recovers exactly its elements, attributes, nesting and text (up to the parser's own normalisation of line ends and of white space in attributes); `?` lists become processing instructions and `!` lists declarations. Raw strings as children, empty lists, non-symbol heads and compound or misplaced attributes are errors.",
 ['inputs', 'programs'], 'every tree', 'No test produces XML.', [XML, ASM], [('node generation', XML), ('escape_xml', ASM)], ['formatter output, re-read by expat'])
prop('C10', 'CSS output translates each rule exactly',
 "Each list becomes one CSS rule: its leading atoms are the selector and each following attribute one declaration `name: value;`, in order; values that are lists become function calls, parenthesised infix arithmetic or space-separated words as their head dictates, and atoms containing whitespace are quoted as CSS strings that mean exactly their characters. `@`-rules become one-line statements, nested blocks or declaration blocks according to their name, with all their arguments and nested rules kept in order. Anything else (rules without selectors, declarations that are not attributes, attributes in values) is an error.",
 ['inputs', 'programs'], 'every tree', 'No test produces CSS.', [CSS], [('rule and value translation', CSS)], ['formatter output, re-tokenised'])
prop('C11', 'Definitions, scoping and calls of user macros',
 "`(%define x body)` expands its body once, at the definition, while `(%define (f args) body)` expands its body at each call with the arguments expanded beforehand; using a name gives its latest visible definition, and an unknown name or a function used as a variable is an error. Definitions made inside a call, a `%match` branch or a `%for` loop are not visible outside it, those made by `%do`, `%include` and at top level are, and bodies see the scope of their caller. `%ifdef` expands only the branch selected, `%do`, `%apply` and `%lambda` behave as the plain call, and a variable or selected branch takes over the whitespace of the place that used it.",
 ['programs'], 'every program built from these macros', 'No test defines a macro other than one lambda.', [EXP], [('scope cloning', EXP), ('whitespace inheritance', EXP)], ['expanded tree'])
prop('C12', 'Binding arguments and matching patterns',
 "Binding a parameter list to arguments assigns positional names in order, named ones by keyword in any position with their defaults when absent, all excess positional arguments to `&rest` and all excess named ones to `&&rest` in the order given, and nested list patterns by the same rules; literals in patterns must be equal. Too few, too many, unknown or mismatching arguments are errors for calls, never silently dropped or swapped. `%match` takes the first pattern that binds, with its bindings visible only in that branch, and expands to nothing when none does.",
 ['programs', 'inputs'], 'every pattern and every argument list', 'One test binds a flat three-element list.', [EXP], [('bind and bind_list', EXP), ('create_macro checks', EXP)], ['expanded tree or error'])
prop('C13', 'List macros keep, order and drop exactly the right elements',
 "`%map`, `%filter`, `%for`, `%list`, `%splat`, `%reverse`, `%apply` and `%get` yield exactly the elements (or the one addressed element) their definition says, in order, for every list length, nesting and kind of element: nothing lost, duplicated or reordered. `%filter` drops exactly the arguments whose result is the empty list, `%reverse` keeps the whitespace positions, and `%get` follows a separated path of indices and keywords and reports a missing step as an error.",
 ['programs', 'inputs'], 'every list', 'One test reverses one flat list.', [EXP], [('per-macro loops', EXP)], ['expanded tree or error'])
prop('C14', 'Sorting is a stable permutation in the documented order',
 "`%sort` returns the same elements, ordered by key: numbers by value (integers exactly) before other text, text by code point; ascending or, with `:order descending`, the reverse; elements with equal keys keep their order. The key is what the `:key` macro yields for the element, the element itself is unchanged, and the whitespace positions of the list stay as they were. A key that is not exactly one literal is an error.",
 ['inputs', 'programs'], 'every list, key macro and order', 'Two tests sort two fixed lists.', [EXP], [('comparison and whitespace restore', EXP)], ['expanded tree or error'])
prop('C15', 'Literal and string macros build exactly the right text',
 "`%string`, `%raw`, `%concat`, `%join` and `%format` produce exactly the concatenation, join or substitution of their arguments' text (for `%string` and `%raw` with the whitespace between them), `%symbol` and `%number` convert each literal without changing its text, `%strip` only removes the leading whitespace of its first node, and `%os/env` gives the exact value of the variable. Non-literal arguments and missing variables or placeholders are errors.",
 ['inputs', 'programs'], 'every text', 'No test runs these macros.', [EXP], [('per-macro builders', EXP)], ['expanded tree or error'])
prop('C16', 'YAML, JSON and TOML become the same data and definitions',
 "`%yaml`, `%json` and `%toml` expand to a tree with exactly the data of the text: maps as lists of attributes, sequences as lists, scalars with their text (in TOML integers and floats as numbers, booleans and dates as symbols), in the order of the source (for TOML tables sorted by key), all documents of a YAML stream in turn. Every value at any depth is also defined as a variable named by its path joined with `/` or the given separator, indices counting from 0. Invalid or unsupported text is an error.",
 ['inputs'], 'every document in these languages and every separator', 'No test imports data.', [EXP], [('event sink', EXP), ('TOML traversal', EXP)], ['expanded tree and values of the defined variables'])
prop('C17', 'Includes and embeds find the right file and insert it faithfully',
 "`%include` inserts the expansion of the first file found in the current directory and then the include directories in the order given, where each is tried with the exact name and then with `.sex` appended; its definitions become visible to what follows, and its first node takes the whitespace of the call. `%embed` gives the exact contents of the first file found, as a string. A file that cannot be found, read or parsed is an error.",
 ['inputs', 'configurations', 'fault_sequences'], 'every directory layout, include order, file content and failing file', 'No test reads a file.', [EXP, LIB, S+'parse/mod.rs'], [('search loop', EXP)], ['expanded tree or error'])
prop('C18', 'Namespaces export definitions under their prefix only',
 "`(%namespace ns ...)` makes every definition of its body available under `ns`, the separator (`/` unless given) and its name, with the same meaning, and no other definition, and leaves the content of the body unchanged. The unprefixed names defined inside do not become visible outside and existing definitions outside keep their meaning.",
 ['programs'], 'every body and separator, nested and repeated', 'No test uses namespaces.', [EXP], [('definition copying', EXP)], ['expanded tree or error'])
prop('C19', 'Dates and timestamps are exact and inverse to each other',
 "`%date` renders the given UNIX timestamp in the given UTC offset (fractions of an hour allowed, default local time) according to the format, and `%timestamp` gives the UNIX timestamp of a date text, honouring an explicit offset in the text over `:timezone`; the two are inverse on the same format and offset wherever the format determines the time and reads back. Invalid formats, dates, timestamps and offsets are errors.",
 ['inputs'], 'every timestamp, offset and format', 'Three tests check a handful of instants.', [EXP], [('offset arithmetic and formatting', EXP)], ['expanded tree or error'])
prop('C20', 'Globbing lists exactly the matching paths, filtered and ordered',
 "`%glob` expands to one string per path matching the pattern, each exactly once, restricted to files or directories when asked, with the first unspaced and the others separated by a space. `:sort` by name, type (directories, then by extension, then name), creation or modification time (newest first, ties by name) and `:order descending` (the reverse) order them so; no match gives nothing and an invalid pattern is an error.",
 ['inputs', 'configurations', 'fault_sequences'], 'every directory content, pattern, filter and order', 'No test touches a directory.', [EXP], [('path collection and ordering', EXP)], ['expanded tree or error'])
prop('C21', 'Markdown becomes raw HTML and its front matter definitions',
 "`%markdown` expands to one raw string with the HTML rendering of the given Markdown (tables, task lists, and embedded HTML included, front matter excluded) and defines the values of YAML (`---`) or TOML (`+++`) front matter under their paths with the given separator. `:only content` defines nothing, `:only frontmatter` expands to nothing and requires front matter, and other options are errors.",
 ['inputs'], 'every Markdown text with and without front matter', 'No test uses Markdown.', [EXP], [('option handling and front matter extraction', EXP)], ['expanded tree and values of the defined variables'])
prop('C22', 'Built-in macros accept exactly their documented arguments',
 "Each built-in macro with declared parameters accepts exactly the argument lists that fit: the positional arguments in order and kind, the named options in any position with one of their allowed values, and trailing arguments only where declared. Every other call (missing, excess, wrong kind, unknown option or value) is an error and never ignored, and options given in a different position never change the result.",
 ['inputs', 'programs'], 'every built-in macro and every argument list', 'The tests make correct calls only.', [MAC, PM, EXP], [('argument rules and parser', MAC), ('generated argument structures', PM)], ['expanded tree or error'])
prop('C23', 'Results depend on the input alone',
 "The same source, files, options and environment give the same output or the same diagnostic on every run, in every process and thread, however often the same document or formatter is processed or used again or cloned and whatever documents were processed before or at the same time. Reading from a file, a stream or a string gives the same content, and later definitions, includes or formatters of one document never affect another.",
 ['histories', 'schedules', 'configurations'], 'every program, every history of earlier documents and every concurrent schedule', 'Each test expands one expression once.', [EXP, LIB, HTML, BIN], [('hash maps with random seeds', EXP), ('shared formatter and context registries', HTML)], ['outputs compared between runs, processes and threads'])
prop('C24', 'The command line reads, selects, reports and exits correctly',
 "The `seam` command processes standard input when no file or `-` is given and then each file in order, with the target of the last format option, `--nodocument`/`--nodoc` and all `-I` directories in order applied wherever they stand on the line, printing each result followed by a newline to standard output and nothing else there. Success exits 0; unknown options, a missing file or target, an unreadable input or any reading, expansion or generation error is reported on standard error with a non-zero status and no partial result for that input; `-v` prints the version. `%log` writes its words to standard error only and leaves nothing in the output.",
 ['configurations', 'fault_sequences', 'inputs'], 'every command line, input file and failing input', 'No test runs the binary.', [BIN, LIB, EXP], [('argument loop', BIN), ('generate_and_print', BIN)], ['exit status, stdout and stderr of the real binary'])
prop('C25', 'Library users can query, compare, take apart and write trees faithfully',
 "Every accessor and conversion of a node (kinds, values, numbers of each width, children, keyword and value, whitespace, location) answers from that node alone and gives nothing for other kinds. Nodes are equal exactly when their kinds and contents are, whatever their whitespace and locations, and equal nodes hash alike; setting the whitespace changes nothing else. A search finds the first node in document order that has the wanted kind and text (letter case ignored when asked) and no more than the given number of levels down. Looking ahead or going back in the lexer, or copying it, never changes the tokens that follow; parsing expression by expression gives the same nodes as parsing at once, and expanding given nodes the same as expanding their text; documents read from a reader are the same however its bytes arrive and its failures are reported; a formatter writes to any writer what it displays, and a writer's failure is reported and never hidden.",
 ['inputs', 'fault_sequences'], 'every tree, node, search, reader and writer', 'No test queries a tree, compares nodes or uses a writer that fails.',
 [PAR, LIB, ASM, MAC], [('node accessors, equality, hash and tree search', PAR), ('tree builders', LIB), ('formatters and writers', ASM)], ['results of the library calls made by an embedding program'])
prop('C26', 'Declared macro arguments are matched, checked and delivered exactly',
 "Argument rules, made at run time with `ArgRules` or declared with `arguments!`, deliver each argument of a call to exactly the rule that names its position (single, alternatives, half-open or inclusive range) or keyword, wherever it stands, and the remaining ones in order to the trailing rule. A call is accepted exactly when every mandatory argument is present, every argument belongs to a rule, and each has the rule's kind (literal, string, symbol, number, symbolic, list with the kinds of its elements, any) and meets one of its conditions (exact text, pattern, predicate function) if it has any. Otherwise it is an error at the offending argument.",
 ['inputs', 'programs'], 'every set of rules and every argument list', 'The tests make correct calls of three built-in macros only.', [MAC, PM], [('argument rules, kinds and conditions', MAC), ('generated rules and structures', PM)], ['arguments delivered to, or refused for, an embedding program'])
prop('C27', 'Diagnostics state the facts of the failure',
 "The message of every diagnostic states, as they stand in the input, the facts that made it fail: the unknown or misused macro, variable, keyword, option, environment variable, placeholder, file or value itself, the invalid escape with its byte index, the kind of node found where another is needed, and the numbers (arguments given and expected, positions, lengths, indices), each stated as what it is and never swapped. A list of what is missing, excess or allowed names exactly the items that are, and the command names the argument it cannot use.",
 ['inputs', 'programs', 'configurations'], 'every mistaken program', 'No test reads a message.',
 [EXP, MAC, PAR, LEX, HTML, XML, BIN], [('messages of expansion errors', EXP), ('messages of argument errors', MAC), ('escape errors', PAR)], ['displayed diagnostic; standard error of the real command'])
prop('C28', 'Time and memory grow in proportion to the document',
 "For documents of bounded nesting depth, line length of what is reported and number of visible definitions, the time and the memory that reading, expanding and formatting take grow in proportion to the sizes of the document and its output, up to a logarithm, whatever the document repeats: tokens, text, nodes, attributes, rules, calls, branches, loops, parsed data, namespaces, included files or reported mistakes. Definitions only inherited by a namespace, a call or a branch are never multiplied. Excepted is the work of `%markdown` and `%format`.",
 ['inputs', 'programs'], 'every document and every size', 'The tests read documents of a few bytes.', [LEX, PAR, EXP, ASM, HTML, XML, CSS], [('tokens and line starts', LEX), ('scopes, calls and branches', EXP), ('generators', ASM)], ['CPU time and peak memory of the real command'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
