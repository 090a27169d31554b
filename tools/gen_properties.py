#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept readable here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })

RENDER = ["Template::render*/TemplateRef::render* -> to_string / to_writer"]

p("C01", "Conditionals render exactly the first branch whose condition holds",
  """A conditional renders exactly the body of its first arm whose condition holds (a `not` inverts it), the `else` body
  when none does and there is one, and nothing otherwise; later conditions are not evaluated.
  None, false, zero of either number type, and empty strings, lists and maps are false and every other value is true,
  wherever the value comes from. This holds at any nesting, inside and around loops and other blocks, and for chains of any length.""",
  ["programs", "inputs"],
  "all templates built from if / else if / else / not, nested with loops and with blocks, all condition values",
  "Tests render a dozen fixed conditionals; jump targets depend on the whole nesting and chain length, truthiness on every kind of value.",
  ["src/compile/mod.rs", "src/compile/parse.rs", "src/render/core.rs", "src/render/value.rs"],
  [("jump patching of arms and else", "src/compile/mod.rs"), ("conditional jumps", "src/render/core.rs"), ("truth of a value", "src/render/value.rs as_bool")],
  RENDER)

p("C02", "Loops visit every element once, in order, with right index, first and last",
  """A `for` over a list renders its body once per element in list order, and over a map once per entry in ascending key order,
  binding the loop variable (or key and value) to exactly that element; `loop.index` counts from zero, `loop.first` holds only for the first and `loop.last` only for the last element.
  An empty collection renders nothing, and loops nest: an inner loop never disturbs the variables, position or remaining elements of an outer one.
  Looping over anything that is not a list or map, or unpacking a list into two or a map into one variable, is an error.""",
  ["programs", "inputs"],
  "all collections (any length, owned or borrowed, any source) and all nestings of loops with other blocks",
  "Tests loop over two or three elements; lengths, key orders, temporaries and nestings are unbounded.",
  ["src/render/iter.rs", "src/render/core.rs", "src/compile/mod.rs"],
  [("loop state over borrowed and owned collections", "src/render/iter.rs"), ("loop start/next instructions", "src/render/core.rs")],
  RENDER, [("loop stack", "position and remaining elements of each open loop", "src/render/stack.rs, src/render/iter.rs")])

p("C03", "Names resolve to the innermost binding in scope and nothing leaks out",
  """A variable refers to the innermost enclosing `with` name, loop variable or (inside a loop) `loop`, and only if there is none to the render context; a shadowed outer binding is visible again, unchanged, as soon as the inner block ends.
  A binding is visible in the body of its own block only: not in the expression that computes it, not in sibling branches, not after the block.
  A name that is bound nowhere in scope is a render error, never a silent empty value, and a binding that is found is used even when the rest of the path does not fit it.""",
  ["programs", "inputs"],
  "all nestings of with, for, if and include without `with`, over a few colliding names",
  "Shadowing needs particular nestings of equal names; tests have single shadowings.",
  ["src/render/stack.rs", "src/render/iter.rs", "src/render/value.rs", "src/render/core.rs"],
  [("search of the scope stack from the inside out", "src/render/stack.rs lookup_var"), ("push and pop around blocks", "src/render/core.rs")],
  RENDER, [("scope stack", "the bindings in scope, innermost last", "src/render/stack.rs")])

p("C04", "Includes render the named template in the right scope and resume after it",
  """`{% include "n" %}` renders the template registered under exactly that name in place, seeing every variable visible at that point;
  with `with e` the template sees only what the value of e provides (none of the includer's variables or loops), and its own nested includes obey the same rule.
  Afterwards the including template continues with its scopes unchanged. When the renderer is given a template function, that function alone decides, once per executed include and with that exact name, what is included, and its error message is reported as a render error; an unknown name is a render error only if the include is reached.""",
  ["programs", "histories", "inputs"],
  "all include graphs over a few templates, placed in any block, with and without `with`, with engine lookup or a template function",
  "Include needs several templates interacting through one scope stack; tests have a handful of two-template cases.",
  ["src/render/core.rs", "src/render/stack.rs", "src/render/mod.rs"],
  [("template stack with program counters", "src/render/core.rs render"), ("scope boundary", "src/render/stack.rs Boundary"), ("template function", "src/render/core.rs get_template")],
  RENDER, [("template stack", "the templates being rendered and where each resumes", "src/render/core.rs")])

p("C05", "Include depth is limited exactly; recursive includes always end",
  """Rendering fails with a render error exactly when an include would make the chain of templates being rendered (counting the root as one) longer than the maximum depth, and every chain within the limit renders.
  The limit is the renderer's if set, else the engine's, else 64; includes that have finished do not count, however many there are.
  In particular a template that includes itself, directly or through others, ends with that error rather than exhausting the stack or looping, unless its own conditions stop it earlier.""",
  ["configurations", "programs"],
  "all limits and all include chains and cycles up to a length, sequential and nested, at and around each limit",
  "The boundary is off-by-one territory for each limit, source of the limit and shape of chain; tests check one limit and one cycle.",
  ["src/render/core.rs", "src/render/mod.rs", "src/lib.rs"],
  [("length of the template stack against the limit", "src/render/core.rs render"), ("limit settings", "src/lib.rs set_max_include_depth, src/render/mod.rs with_max_include_depth")],
  RENDER)

p("C06", "Path lookup follows keys and indexes; optional access yields none if missing",
  """A path yields the value reached by looking up each key in a map and each index in a list in turn, whatever holds the value (context, loop, with, temporary).
  A missing key or index that is accessed with `?.` makes the whole path none, without looking at the rest of it; accessed with `.` it is a render error, and so is a key on something that is not a map or an index on something that is not a list, even with `?.`.
  The first name of a path must always exist.""",
  ["inputs", "programs"],
  "all paths up to a length over all small nested values and all sources of values",
  "Each source of values walks paths in its own code; tests pair a few paths with a few sources.",
  ["src/render/value.rs", "src/render/iter.rs", "src/render/stack.rs"],
  [("lookup of one segment", "src/render/value.rs lookup"), ("whole paths", "src/render/value.rs lookup_path, lookup_path_maybe; src/render/iter.rs lookup_var")],
  RENDER)

p("C07", "Compiling and rendering are total: an answer or an error, never a panic",
  """Compiling any string with any valid delimiter configuration either succeeds or returns a syntax error, and rendering any compiled template with any context either succeeds or returns an error.
  Neither panics, hangs, or ends the process, and displaying or debug-printing the error works and ends too.
  Compiling is deterministic.""",
  ["inputs", "configurations"],
  "all strings over an alphabet of tokens and awkward characters up to a length, several delimiter configurations, all renderings of those that compile",
  "Tests compile some 150 chosen strings; a panic needs an unusual adjacency of tokens, a multi-byte character, or a delimiter of a special form.",
  ["src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs", "src/error.rs", "src/types/span.rs"],
  [("lexer", "src/compile/lex.rs"), ("parser", "src/compile/parse.rs"), ("error display", "src/error.rs")],
  ["Engine::compile, Engine::add_template, Renderer::to_string, Display and Debug of Error"])

p("C08", "Text is output verbatim, except comments and whitespace trimmed by hyphens",
  """Everything outside tags is written to the output byte for byte, and comments, whatever they contain, write nothing.
  A hyphen inside the delimiter of a tag or comment removes exactly the Unicode whitespace of the directly adjacent text on that side (up to the neighbouring tag or the end of the template, never beyond it) and nothing else.
  Block tags leave the text around them unchanged otherwise.""",
  ["inputs", "programs"],
  "all sequences of texts (with every kind of whitespace) and tags with every combination of hyphens, up to a length",
  "Tests trim ASCII spaces and newlines next to one tag; combinations of adjacent tags, all-whitespace texts and non-ASCII whitespace are open.",
  ["src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs"],
  [("trim state between tags", "src/compile/lex.rs"), ("raw text instructions", "src/compile/mod.rs")],
  RENDER)

p("C09", "Delimiters mean the same under any custom syntax; unset kinds are plain text",
  """A template rewritten from one delimiter configuration to another renders the same: tags start and end exactly at the configured delimiters, at each position the longest configured delimiter (with an optional hyphen) wins, and delimiters that start further left win over later ones.
  A kind of tag that is not configured does not exist: its usual delimiters are plain text.
  Without any configuration the defaults are double braces for expressions, brace-percent for blocks and brace-hash for comments. Of several settings of a kind the last one counts, and an empty delimiter is refused (it panics) and changes nothing.""",
  ["configurations", "inputs"],
  "a family of delimiter configurations with shared prefixes, suffixes, substrings, equal begin and end, whitespace, multi-byte characters, or missing kinds; all short templates under each",
  "Tests use three configurations; overlaps between delimiters and between delimiters and text are what custom syntaxes are about.",
  ["src/compile/lex.rs", "src/types/syntax.rs", "src/compile/mod.rs"],
  [("delimiter search", "src/types/syntax.rs Searcher (leftmost-longest automaton)"), ("tags from patterns", "src/compile/lex.rs")],
  ["Engine::with_syntax, Syntax::builder, then compile and render"])

p("C10", "Exactly the documented template grammar is accepted",
  """A template compiles if and only if it is well formed: every tag is closed by the end delimiter of its own kind on it, its inside follows the documented grammar for expressions and blocks, and blocks nest properly with each closed by its own end tag; `else` and `else if` occur only inside a conditional, and nothing but the end follows a plain `else`.
  Everything else is a syntax error. Whether a template compiles does not depend on which functions, templates or variables exist.""",
  ["inputs", "programs"],
  "all sequences of block tags up to a length, all sequences of tokens inside a tag up to a length",
  "Acceptance is a language; tests have one example per error message.",
  ["src/compile/parse.rs", "src/compile/lex.rs"],
  [("recursive descent and block stack", "src/compile/parse.rs")],
  ["Engine::compile, Engine::add_template"],
  [("open blocks", "what each open block still needs", "src/compile/parse.rs")])

p("C11", "Literals denote exactly the values they spell",
  """An integer literal (decimal, binary, octal or hexadecimal, with sign and underscores) denotes that number and is rejected if it does not fit 64 signed bits, unless it is a valid decimal float; a float literal denotes the nearest double.
  A string literal denotes its characters with the escapes for newline, carriage return, tab, quote and backslash replaced, and any other escape is rejected; true and false are booleans.
  A literal means the same wherever an expression, condition, filter argument, loop or include value allows it.""",
  ["inputs"],
  "all literal spellings over their alphabets up to a length, the boundary values of every radix and sign, in every position of a template",
  "Tests check a few numerals; overflow, signs, radixes and underscores interact at exact boundary values.",
  ["src/compile/parse.rs", "src/compile/lex.rs"],
  [("number and string literals", "src/compile/parse.rs"), ("number and string tokens", "src/compile/lex.rs")],
  RENDER)

p("C12", "Filters get the piped value and arguments exactly, and their result flows on",
  """A filter is called with the piped value first and its arguments after it in the order written, each converted to the parameter's type without changing it; its result is what the next filter, block or formatter receives, and applying filters never changes the variables they were applied to.
  A wrong number of arguments, a value of another type, an integer that does not fit, or a reference parameter given a temporary is a render error and the filter is not called; an error returned by the filter is reported as a filter error with its message.
  A name that is not a filter is a render error when reached.""",
  ["programs", "inputs", "configurations"],
  "all filter signatures (five arities, owned and every reference kind in each allowed position), all argument kinds and sources, all pipelines up to a length, all integer widths at their limits",
  "The signatures are some 150 generated implementations of which tests use a few; conversions depend on type, ownership and value.",
  ["src/filters/mod.rs", "src/filters/args.rs", "src/filters/impls.rs", "src/render/core.rs"],
  [("argument passing", "src/filters/mod.rs, src/filters/impls.rs"), ("conversions", "src/filters/args.rs"), ("application", "src/render/core.rs Apply")],
  ["the closures given to Engine::add_filter, and the output"])

p("C13", "Each emitted value is written by exactly one formatter",
  """The value of each expression tag is written exactly once, by the formatter named last in its pipeline or otherwise by the engine's default formatter, which gets the final value; raw text and blocks never go through a formatter, and what a formatter writes appears unaltered in place.
  The built-in default writes nothing for none, `true`/`false`, decimal integers, shortest round-trip floats and strings verbatim, and fails on lists and maps.
  A formatter that fails makes rendering fail with a format error with its message; a formatter used anywhere but last in an emitted expression, or with arguments, is a render error.""",
  ["programs", "inputs", "configurations"],
  "all pipelines ending in filters or formatters over all kinds of values, all default formatters, both sinks",
  "Which formatter applies depends on the last call, the registered functions and the sink; tests check one custom formatter.",
  ["src/render/core.rs", "src/fmt.rs", "src/compile/mod.rs"],
  [("emit instructions", "src/render/core.rs Emit, EmitWith, EmitRaw"), ("default formatter", "src/fmt.rs default"), ("writers", "src/fmt.rs Formatter, Writer")],
  ["the closures given to Engine::add_formatter and set_default_formatter, and the output"])

p("C14", "Rendering to a writer loses, repeats and hides nothing when writes fail",
  """Rendering to a writer writes exactly the bytes that rendering to a string returns, in order, however the writer splits them into short or interrupted writes.
  If a write fails, rendering stops there and returns an io error whose source is that error (also when it happened inside a formatter), and what reached the writer is a prefix of the full output; a writer that accepts nothing counts as failing.
  A render, filter or format error is reported as itself, after exactly the output that precedes it has been written.""",
  ["fault_sequences", "programs"],
  "every write call of a rendering failing, being interrupted, or accepting only part, for a set of templates covering every way to write",
  "Tests use writers that always or never fail; faults at each particular write, in text, formatter and include, are not explored.",
  ["src/render/mod.rs", "src/fmt.rs", "src/error.rs"],
  [("pending io error", "src/fmt.rs Writer"), ("replacing the error", "src/render/mod.rs to_writer")],
  ["an io::Write given to to_writer, and the error it returns"])

p("C15", "An engine always acts as the maps of templates and functions it was given",
  """After any history of adding, replacing and removing templates and functions, looking up, rendering or including a name uses exactly what was last successfully added under it and not removed since; an add that fails to compile changes nothing.
  Filters and formatters share one name space, and adding or removing a function tells the kind of what it displaced, or that there was nothing; removing a template tells whether it existed.
  Templates compiled but not registered are unaffected by later changes, except through the names they use when rendered.""",
  ["histories"],
  "all sequences of registry operations up to a length over two names, observed through every lookup after each step",
  "Tests add each thing once; replacement and removal histories are not explored.",
  ["src/lib.rs"],
  [("template and function maps", "src/lib.rs add_template, remove_template, add_filter, add_formatter, remove_function, get_template")],
  ["Engine methods and renderings after each operation"],
  [("registry", "name to template and name to function", "src/lib.rs Engine")])

p("C16", "Serialized and converted Rust values arrive in templates unchanged",
  """Converting a Rust value, through serialization or the provided conversions, yields the value with the same structure: options as none or the inner value, all integers of up to 64 bits that fit 64 signed bits and all floats exactly, characters and strings verbatim, sequences and tuples as lists in order, structs and maps as maps, units as none, enum variants under their documented representation.
  Anything that cannot be represented, such as an integer out of range or a key that is not text, is a serialize error rather than a wrong value (keys that are integers, characters or unit variants become text).
  The same data reaches a template identically whether serialized or converted by hand.""",
  ["inputs"],
  "all values of a grammar of the serialization data model up to a depth, all integer widths at their limits, all kinds of map key",
  "The data model has 29 kinds that nest; tests cover most once at the top.",
  ["src/value/ser.rs", "src/value/from.rs", "src/value/mod.rs"],
  [("serializer to values", "src/value/ser.rs"), ("conversions", "src/value/from.rs")],
  ["to_value, Value::from, render versus render_from"])

p("C17", "Errors have the right kind, template name and position",
  """A failure is reported with the kind of what went wrong (syntax, render, filter, format, serialize, io) and names the template it occurred in: the registered or included name, also for errors when adding a template, and `<anonymous>` for an unregistered one.
  The line and column are those of the offending token, name or expression (lines counted by line feeds, columns by display width, both from one), and the quoted line and the underline belong to it, for any line endings, tabs and multi-byte or wide characters before it.
  User supplied messages appear verbatim.""",
  ["programs", "inputs"],
  "every way to fail a template, at every position: after texts with any line endings and wide characters, in nested blocks and includes",
  "Tests check locations in short ASCII one-line templates; the position arithmetic depends on everything before it.",
  ["src/error.rs", "src/types/span.rs", "src/render/core.rs", "src/compile/parse.rs", "src/compile/lex.rs"],
  [("position from offset", "src/error.rs Pretty::build"), ("template name", "src/render/core.rs, src/lib.rs add_template"), ("spans", "src/types/span.rs")],
  ["Display of Error, plain and alternate"])

p("C18", "Every way to render gives the same result",
  """Rendering a template gives the same text, or the same kind of failure, whether it is compiled on its own or registered under a name, rendered to a string or to a writer, and whether the context is a serializable value, a prepared value, or a function that answers like that value.
  A value function is asked for a variable only when no `with`, loop or include value binds its first name, and then with the complete path, each key and index in order with its access kind; its answer is used as the value (a temporary one, so not for reference arguments of filters) and its error message is reported as a render error.
  A context that is not a map provides no variables but is not an error by itself.""",
  ["inputs", "programs", "configurations"],
  "all combinations of the ways to render over a family of templates and contexts",
  "Tests render mostly one way; the twelve combinations have separate code paths.",
  ["src/lib.rs", "src/render/mod.rs", "src/render/stack.rs"],
  [("renderer constructors", "src/lib.rs, src/render/mod.rs"), ("value function", "src/render/stack.rs lookup_var")],
  ["Template/TemplateRef::{render, render_from, render_from_fn} x {to_string, to_writer}"])

p("C19", "Renderings are independent: concurrent, nested or repeated",
  """The result of a rendering depends only on its template, engine and context: renderings that share an engine and run at the same time on several threads, or one inside a filter, formatter, value or template function of another, or after others that failed or panicked, give the same result as alone.
  Rendering changes neither the engine, the template nor the context.
  Engines, templates, renderable values and errors can be shared between and sent to threads.""",
  ["schedules", "histories"],
  "all interleavings of the user-visible steps (callbacks and writes) of two or three renderings sharing an engine, all nestings and repetitions up to a depth",
  "Tests render once, on one thread; hidden shared or cached state shows only under interleaving, re-entrance or repetition.",
  ["src/lib.rs", "src/render/core.rs", "src/render/mod.rs", "src/fmt.rs"],
  [("per-rendering state", "src/render/core.rs RendererImpl"), ("shared engine by reference", "src/lib.rs Engine")],
  ["outputs and callback traces of the interleaved renderings"],
  [("renderer", "scope stack, template stack and pending value of one rendering", "src/render/core.rs")])

p("C20", "The value! macro builds exactly the value that is written",
  """`value!` builds the map with exactly the keys and values written, in any nesting of maps and lists and with trailing commas; a later duplicate key replaces an earlier one.
  None, nested brackets and braces are taken structurally, and every other expression is evaluated exactly once, in order, and serialized.
  The result equals the same value serialized from ordinary Rust data.""",
  ["programs"],
  "all macro inputs of a grammar up to a size, with every kind of entry in every position",
  "A macro is a compiler of token trees; tests expand three inputs.",
  ["src/macros.rs"],
  [("token muncher", "src/macros.rs _value")],
  ["the Value a macro call evaluates to"])

p("C21", "Cargo features only add: what remains behaves the same without them",
  """Under every combination of the optional features the crate builds, and templates that need no disabled feature compile and render identically.
  Without filters, only formatters can be named and only last in an emitted expression; without Unicode support identifiers are ASCII and other text is still rendered verbatim; without serialization values are built by conversion.
  No combination changes parsing, scoping, or escaping of what it still supports.""",
  ["configurations", "inputs"],
  "all eight feature combinations, over a family of templates each",
  "The test suite runs with default features only.",
  ["Cargo.toml", "src/lib.rs", "src/compile/lex.rs", "src/render/core.rs", "src/error.rs"],
  [("feature gates", "src/lib.rs, src/compile/lex.rs, src/render/core.rs")],
  ["the crate built with each combination of features"])

p("C22", "Expressions are evaluated exactly once, in order, and only when reached",
  """User functions (filters, formatters, value and template functions) are called exactly once for each time rendering reaches the expression that uses them, in document order: the piped value first, then each filter with its arguments from left to right, then the formatter.
  Conditions after the chosen arm, bodies that are not rendered, bodies of empty loops, and everything after an error are not evaluated; a loop's collection and a `with` or include value are evaluated once, before the body.
  Compiling and creating a renderer call nothing.""",
  ["programs", "histories"],
  "all templates of a grammar over callbacks that record themselves, compared event by event with the specified order",
  "Tests observe output only; repeated or eager evaluation is invisible without effects.",
  ["src/compile/mod.rs", "src/render/core.rs", "src/filters/mod.rs"],
  [("instruction order", "src/compile/mod.rs"), ("argument evaluation", "src/filters/mod.rs get_arg")],
  ["the sequence of calls of user functions"])

p("C23", "A template keeps its exact source and its own life",
  """A compiled or registered template reports exactly the source it was compiled from, borrowed or owned, and renders from that source however often and in whatever order templates are compiled, registered, replaced, rendered, and dropped.
  Looking a template up by name gives its source and renders it under that name.
  Debug-printing engines and templates works in every such state.""",
  ["histories"],
  "all short histories of compiling, registering, looking up, rendering and dropping templates with owned and borrowed sources",
  "Tests use each template once, right after compiling it.",
  ["src/lib.rs", "src/types/program.rs"],
  [("source kept with the program", "src/types/program.rs Template"), ("references by name", "src/lib.rs TemplateRef")],
  ["Template::source, TemplateRef::source, renderings, Debug"])

p("C24", "Resource use stays proportional to input, work and output",
  """Compiling takes steps and memory at most proportional to the length of the template. Rendering takes steps and memory at most proportional to the tags, loop iterations and includes executed, the values they use and the output produced (apart from logarithms of map and registry sizes). What the context or the engine holds but the rendering does not use costs nothing, streaming to a writer does not collect the output, the stack grows only with nested blocks and chains of filters or `else if`, and everything is given back in the end. Each holds for failing templates and renderings too.""",
  ["inputs"],
  "all families of growing templates, contexts and engines",
  "Tests use small inputs, on which quadratic work, needless copies and leaks are not visible.",
  ["src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs", "src/compile/search", "src/render/core.rs", "src/render/iter.rs", "src/render/stack.rs", "src/value/cow.rs", "src/error.rs"],
  [("lexer and parser loops", "src/compile/lex.rs, src/compile/parse.rs"), ("borrowed and owned values", "src/value/cow.rs, src/render/value.rs"), ("loops over borrowed collections", "src/render/iter.rs")],
  ["counted basic blocks, bytes allocated, bytes moved, stack depth"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
