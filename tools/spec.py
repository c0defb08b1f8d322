"""The properties and what is said about their checks."""

PROPERTIES = []


def prop(pid, title, statement, text, why, mechanism, observe, note,
         over=("inputs",), na=None):
    PROPERTIES.append({"id": pid, "title": title, "statement": statement,
                       "text": text, "why": why, "mechanism": mechanism,
                       "observe": list(observe), "note": note,
                       "over": list(over), "na": na})


API = "Source_Manager.process() and the message handler"

prop("C01", "Source text is tokenised exactly as the language manual says",
     "Every source text is split into identifiers, keywords, integers, "
     "decimals, strings, operators, punctuation and comments exactly as the "
     "language manual defines, longest match first, with nothing lost and "
     "nothing added. Text that forms no legal token (bad numbers, lone "
     "characters, unterminated strings or comments) is reported as an error "
     "and is never turned into tokens.",
     "all texts up to the length bounds over alphabets that contain every "
     "character class the language distinguishes",
     "The tests lex a few hundred hand written files; the guarantee is about "
     "every character sequence, in particular at token boundaries and at the "
     "end of the file.",
     [("character level scanner", "trlc/lexer.py:TRLC_Lexer.token")],
     ["token stream of the lexer", "lexing errors"],
     "Oracle: independent lexer in props/lexing.py. Texts of up to 3 (4) free "
     "characters, more inside numbers, strings and comments.")

prop("C02", "Literals denote exactly the value written in the source",
     "An integer, binary, hexadecimal or decimal literal (with or without "
     "digit group underscores) denotes exactly the number written, at any "
     "size, and a string literal denotes exactly its characters with escaped "
     "quotes resolved. A triple quoted string drops the blank first and last "
     "line, the common indentation and trailing whitespace, and nothing "
     "else.",
     "all literals up to the length bounds, including every digit, escape "
     "and white space combination",
     "The tests pin a handful of literals; a conversion error appears only "
     "for particular digit, escape or indentation patterns.",
     [("number and string conversion", "trlc/lexer.py:TRLC_Lexer.token"),
      ("triple quoted strings", "trlc/lexer.py:triple_quoted_string_value")],
     ["value of a component read through the API"],
     "Oracle: digit arithmetic and the manual's triple quote rules. Literals "
     "of up to 4 to 8 symbolic characters; triple quoted bodies of up to 3 "
     "lines.")

prop("C03", "Reported positions point at the exact line, column and end",
     "The position of every token and of every message names the line, "
     "column and end of the exact source range it is about, and the quoted "
     "source line with its marker shows that range, for any mixture of "
     "tabs, line ends, multi-line tokens and comments before it.",
     "all texts up to the length bounds over letters, digits, quotes, "
     "comment characters, tabs, carriage returns and line feeds",
     "Tests compare positions in tidy files only; an off by one shows after "
     "particular combinations of empty lines, multi-line tokens or the end "
     "of the file.",
     [("position bookkeeping", "trlc/lexer.py:Lexer_Base.advance"),
      ("locations", "trlc/lexer.py:Source_Reference")],
     ["location of tokens and messages", "quoted source lines"],
     "Oracle: line and column recomputed from the offset. Texts of up to 4 "
     "(5) free characters around tokens.")

prop("C04", "Check arithmetic is exact",
     "Numbers in checks are computed exactly: integers without overflow, "
     "decimals as exact rationals without rounding, integer division "
     "rounding towards negative infinity, remainder satisfying the manual's "
     "identity, powers by repeated multiplication. Integer() rounds to the "
     "nearest integer with ties away from zero and Decimal() is exact; "
     "division or remainder by zero is a reported error.",
     "all operand values within the digit bounds, signs included",
     "The tests evaluate a few dozen constant sums; wrong rounding, a float "
     "slipping in or a sign error shows only for particular operands.",
     [("evaluation of operators",
       "trlc/ast.py:Binary_Expression.evaluate"),
      ("unary operators and conversions",
       "trlc/ast.py:Unary_Expression.evaluate"),
      ("rounding and remainder", "trlc/math.py")],
     ["outcome of user defined checks"],
     "Oracle: integer and rational arithmetic in z3. Operands of 2 to 4 "
     "symbolic digits with sign.")

prop("C05", "Logic, comparison, conditionals and quantifiers are evaluated right",
     "and, or, xor, implies, not, the six comparisons, if/elsif/else and the "
     "quantifiers have their mathematical value for every operand, with an "
     "empty array making forall true and exists false. The right operand of "
     "and, or and implies, branches not taken and elements after the deciding "
     "one are not evaluated, so an error in them never surfaces, while an "
     "error in an evaluated part always does.",
     "all operand values within the bounds, all nestings of two logical "
     "operators, arrays of up to 2 (3) elements",
     "Truth tables in the tests fix operands one by one; short circuit and "
     "branch selection need operands that fail to evaluate in each position.",
     [("logical operators and comparison",
       "trlc/ast.py:Binary_Expression.evaluate"),
      ("conditionals", "trlc/ast.py:Conditional_Expression.evaluate"),
      ("quantifiers", "trlc/ast.py:Quantified_Expression.evaluate")],
     ["outcome of user defined checks", "evaluation errors"],
     "Oracle: props/refexpr.py.")

prop("C06", "Equality, membership, string functions and access are right",
     "Equality is by value for numbers, strings, enumerations, tuples and "
     "arrays, by identity of the referenced object for record references, "
     "and null equals only null. Range, substring and element membership, "
     "startswith, endswith, len, matches, oneof, concatenation, indexing and "
     "field access return exactly what the manual defines.",
     "all operand values within the bounds, arrays of up to 3 elements, "
     "strings of up to 4 characters",
     "Tests use one or two operands per operator; inclusive bounds, empty "
     "strings, equal looking but different objects need the combinations.",
     [("operators", "trlc/ast.py:Binary_Expression.evaluate"),
      ("range test", "trlc/ast.py:Range_Test.evaluate"),
      ("oneof", "trlc/ast.py:OneOf_Expression.evaluate"),
      ("access", "trlc/ast.py:Field_Access_Expression.evaluate")],
     ["outcome of user defined checks"],
     "Oracle: props/refexpr.py.")

prop("C07", "Null may only be compared; every other use is a reported error",
     "Evaluating a null value anywhere other than in an equality or "
     "inequality is reported as an error and never yields a result, a wrong "
     "verdict or a crash; the same holds for an array index outside the "
     "actual contents. The literal null is rejected statically in every "
     "context except equality, and guarded uses evaluate without error.",
     "every combination of present and absent optional components for every "
     "operator, function, index, quantifier and conditional",
     "The tests cover one null per operator; each operand position of each "
     "construct has its own code.",
     [("null tests in evaluation", "trlc/ast.py:Binary_Expression.evaluate"),
      ("static null rejection", "trlc/ast.py:Expression.ensure_type")],
     ["errors and outcome of user defined checks"],
     "Oracle: props/refexpr.py.")

prop("C08", "Expressions group by the manual's precedence and associativity",
     "An expression means what the manual's grammar says: power binds "
     "tightest, then not/abs, multiplication, sign and addition, comparison "
     "and membership, logical operators; arithmetic associates to the left, "
     "and an unbracketed mixture of logical operators or a chain of "
     "comparisons is rejected. Brackets override grouping, and malformed "
     "expressions are rejected with an error.",
     "all pairs and many triples of operators with symbolic operands, so "
     "that any other grouping gives a different verdict for some value",
     "Tests check a few expressions with operands for which most groupings "
     "agree.",
     [("expression parser", "trlc/parser.py:Parser.parse_expression"),
      ("relations", "trlc/parser.py:Parser.parse_relation"),
      ("simple expressions and terms",
       "trlc/parser.py:Parser.parse_simple_expression")],
     ["outcome of user defined checks", "parse errors"],
     "Oracle: recursive descent grammar of props/refexpr.py written from the "
     "manual.")

prop("C09", "A check is accepted exactly when it is well typed",
     "A check expression is accepted if and only if it obeys the typing "
     "rules: operand types of each operator and function, arity, Boolean "
     "result, same branch types, existing components, fields and literals, "
     "no shadowing, static patterns and exponents. Violations are reported as "
     "errors before any check runs, never by an internal failure.",
     "every operator and function with every combination of operand kinds",
     "The tests exercise selected type errors; the guarantee concerns each "
     "combination of operator and operand types in both directions.",
     [("typing of operators", "trlc/ast.py:Binary_Expression.__init__"),
      ("functions", "trlc/parser.py:Parser.parse_builtin"),
      ("names", "trlc/parser.py:Parser.parse_name")],
     ["errors, acceptance of the model"],
     "Oracle: typing rules in props/refexpr.py; operands enumerated by solver "
     "choice variables, their values symbolic.")

prop("C10", "All and only the applicable checks run, once, and are reported",
     "For every object each check of its record type and of all ancestors is "
     "evaluated exactly once, root type first and in declaration order, also "
     "for checks of tuple values wherever they occur, and no other check is. "
     "A check that yields false is reported exactly once with the declared "
     "severity, message, details and anchor; one that yields true is silent; "
     "a fatal one stops the remaining checks of its block.",
     "all values of the components the checks depend on, check order, "
     "severities, anchors, inheritance depth and position of tuples",
     "Tests contain a few check blocks each violated in one particular way; "
     "missing or duplicated evaluation depends on the combination of outcomes.",
     [("checks of records and tuples", "trlc/ast.py:Record_Object.perform_checks"),
      ("checks of tuple values", "trlc/ast.py:Tuple_Aggregate.perform_checks"),
      ("reporting", "trlc/ast.py:Check.perform"),
      ("processing", "trlc/trlc.py:Source_Manager.perform_checks")],
     ["check messages with location, kind and text"],
     "Oracle: list of expected messages computed from the values. Up to 3 "
     "levels of inheritance, 4 checks, tuples nested twice.")

prop("C12", "An object is accepted iff it gives exactly what its type demands",
     "A record object is accepted if and only if its type is a visible, "
     "non-abstract record type, every component it gives exists and is given "
     "once, and every mandatory component is given. The API then shows "
     "exactly the values written, null for the optional ones left out.",
     "every subset, order and repetition of assignments, component and type "
     "names, and values within the bounds",
     "Tests have one file per kind of mistake; the guarantee is the "
     "equivalence for every combination.",
     [("objects", "trlc/parser.py:Parser.parse_record_object_declaration"),
      ("python view", "trlc/ast.py:Record_Object.to_python_dict")],
     ["acceptance", "to_python_dict()"],
     "Oracle: multiset of assigned names against the declared components. 2-3 "
     "components, names of up to 3 characters.")

prop("C13", "Component values have the declared type and arrays respect bounds",
     "A value is accepted for a component if and only if it is a value of the "
     "declared type: no implicit conversion, enumeration literals of the very "
     "enumeration, references to objects of the type or an extension, arrays "
     "element by element. The number of array elements must be within the "
     "declared bounds, inclusive on both ends.",
     "every form of value for every declared type with symbolic contents; "
     "all bounds and element counts within limits",
     "The tests try some mismatches; the acceptance matrix and the bound "
     "comparisons are for all combinations.",
     [("values", "trlc/parser.py:Parser.parse_value"),
      ("record references",
       "trlc/ast.py:Record_Reference.resolve_references"),
      ("array bounds", "trlc/ast.py:Array_Type")],
     ["acceptance", "to_python_dict()"],
     "Oracle: type/value matrix. 34 forms of value, bounds 0 to 5, up to 4 "
     "elements.")

prop("C14", "Tuple values are read in exactly their declared form",
     "A tuple with separators is written with exactly these separators, a "
     "generic one as a bracketed list with one value per field; values end up "
     "in the declared field and optional trailing fields left out are null. "
     "Every other form and every ill-formed tuple declaration is rejected.",
     "all separators, numbers of fields, optional suffixes, one deviation at "
     "every position, symbolic field values",
     "Tests use half a dozen tuple types; separators, optional fields and "
     "token boundaries interact.",
     [("tuple values", "trlc/parser.py:Parser.parse_tuple_aggregate"),
      ("generic form", "trlc/parser.py:Parser.parse_tuple_generic"),
      ("declaration", "trlc/parser.py:Parser.parse_tuple_declaration")],
     ["acceptance", "to_python_dict()"],
     "Oracle: field by field reconstruction of the value. 2-4 fields.")

prop("C17", "Inheritance, final, abstract and freezing are enforced",
     "A type can extend only a visible, previously declared record type, and "
     "has all inherited components, which it cannot redeclare. An extension "
     "of a final type is final too and cannot add components; an abstract "
     "type has no objects of its own. A component is frozen at most once on a path, to a value of its type, "
     "only if it is declared before; every object then has that value and "
     "cannot assign it, whatever the depth of inheritance.",
     "all placements of qualifiers, freezes and assignments over three "
     "levels; symbolic names and values",
     "Tests freeze in one place; frozen twice, in a sibling or through two "
     "levels are combinations nobody wrote a test for.",
     [("type declaration", "trlc/parser.py:Parser.parse_type_declaration"),
      ("freezing in the type", "trlc/ast.py:Record_Type.is_frozen"),
      ("objects", "trlc/parser.py:Parser.parse_record_object_declaration")],
     ["acceptance", "to_python_dict()", "outcome of checks"],
     "Oracle: set reasoning over the three levels.")

prop("C18", "Union types accept exactly their members and access is typed",
     "A union component accepts references to objects of its member types and "
     "their extensions and nothing else. A field may be accessed through a "
     "union only if some member has it with one consistent type, and yields "
     "the value of the referenced object, or null if that has no such field; "
     "equality between unions and records depends only on the object.",
     "all member sets, referenced objects, fields and orders of declaration "
     "within the bounds",
     "The tests cover two or three unions; member, extension and field "
     "combinations are many.",
     [("union type", "trlc/ast.py:Union_Type"),
      ("references", "trlc/ast.py:Record_Reference.resolve_references"),
      ("access", "trlc/ast.py:Field_Access_Expression.evaluate")],
     ["acceptance", "to_python_dict()", "outcome of checks"],
     "Oracle: member sets with extensions. Up to 2 (3) members from 10.")

prop("C11", "The exit status is 0 exactly if no error was reported",
     "The command line tool exits with 0 if and only if no error was reported "
     "(and no warning, with --error-on-warnings), whatever the other options. "
     "It prints every message that is not suppressed and one summary that "
     "counts exactly the warnings, errors, suppressed messages and processed "
     "files, to standard output or to the log file.",
     "all outcomes of checks, all mistakes of the list, all combinations of "
     "the options, free text inside the files",
     "Tests run few option combinations; a wrong exit status matters for one "
     "particular combination of message kinds, options and file roles.",
     [("command line", "trlc/trlc.py:trlc"),
      ("processing", "trlc/trlc.py:Source_Manager.process"),
      ("counting", "trlc/errors.py:Message_Handler.emit")],
     ["exit status", "standard output", "log file"],
     "Oracle: expected counts computed from the values; displayed messages "
     "counted in the output. 27 mistakes, 2 (3) objects, 3 packages.")

prop("C15", "Names are sufficiently distinct and referenced exactly",
     "Two types of a package, components of a type and its ancestors, "
     "literals of an enumeration, fields of a tuple, objects of a package "
     "with any of its names, or packages may not have the same simplified "
     "name (lower case without underscores), and nothing may clash with "
     "builtin names or packages. Names in different scopes never clash, and a "
     "reference matches only the exact name.",
     "all pairs of names up to the length bound over letters of both cases "
     "and underscore, for each kind of declaration and reference",
     "Tests have a few clashing pairs; case and underscore positions and the "
     "kinds of scope multiply.",
     [("declaration", "trlc/ast.py:Symbol_Table.register"),
      ("lookup", "trlc/ast.py:Symbol_Table.lookup_direct"),
      ("scopes", "trlc/ast.py:Scope.lookup")],
     ["acceptance", "values of objects"],
     "Oracle: comparison of the simplified names. Names of up to 2 (3) "
     "characters; references of 4 to 5 characters.")

prop("C16", "Names of other packages are visible only where imported",
     "A qualified name can be used if and only if its prefix is the current "
     "package or a package imported by the very file, in every place where "
     "names are allowed. Imports are neither transitive nor shared between "
     "files, and an unqualified name never denotes something of another "
     "package.",
     "every kind of use with every prefix and every combination of imports "
     "here and elsewhere",
     "Tests check a missing import in a few positions; each position has its "
     "own visibility test.",
     [("qualified names", "trlc/parser.py:Parser.parse_qualified_name"),
      ("markup", "trlc/parser.py:Markup_Parser.parse_qualified_name"),
      ("visibility", "trlc/ast.py:Compilation_Unit.is_visible")],
     ["acceptance", "target of references"],
     "Oracle: set of imported packages. 18 uses, 6 prefixes.")

prop("C19", "The needed files are processed, independently of their order",
     "Exactly the registered files and what they import, directly or "
     "indirectly, are processed; include directories contribute only what is "
     "needed. Cyclic imports of models are an error, cyclic imports of "
     "requirements are not, and neither the order of registration nor the "
     "file names influence the result.",
     "all import relations and file roles of up to 3 packages, orders of "
     "registration and file names, component values",
     "Tests use a handful of file sets; order dependence and missing "
     "dependencies appear for particular graphs.",
     [("dependency graph", "trlc/trlc.py:Source_Manager.build_graph"),
      ("model order", "trlc/trlc.py:Source_Manager.parse_rsl_files"),
      ("includes", "trlc/trlc.py:Source_Manager.register_include")],
     ["objects in the symbol table", "errors"],
     "Oracle: transitive closure. 2 (3) packages with all import relations, "
     "cycles of 3 (4).")

prop("C24", "References in markup strings are found and resolved exactly",
     "The references of a markup string are exactly the names listed in "
     "double square brackets, in order, each resolved to the record object it "
     "names, wherever it is declared. Malformed lists, unknown names, names "
     "of types and packages that are not imported are errors at the exact "
     "position of the name, and the text of the string is never changed.",
     "all contents up to the length bounds over brackets, commas, dots, "
     "blanks and names; quotes, escapes and line breaks before a reference",
     "Tests have a dozen markup strings; bracket sequences and positions "
     "behind escapes and line ends need exhaustive combinations.",
     [("markup scanner", "trlc/parser.py:Markup_Lexer.token"),
      ("markup parser", "trlc/parser.py:Markup_Parser"),
      ("locations", "trlc/nested.py:Nested_Lexer.source_location")],
     ["references of string literals", "errors and their location"],
     "Oracle: independent scanner. 4 to 6 (5 to 8) free characters.")

prop("C25", "Sections group objects and have no other influence",
     "Every object knows exactly the sections around it, outermost first, and "
     "iterating by section yields every file, section and object once, in "
     "order and with its level, every time. Sections never influence names, "
     "references or checks; badly nested sections are rejected.",
     "all sequences of section openings, closings and objects up to the "
     "bound, section names symbolic",
     "Tests have one small section tree.",
     [("sections", "trlc/parser.py:Parser.parse_section_declaration"),
      ("iteration",
       "trlc/ast.py:Symbol_Table.iter_record_objects_by_section")],
     ["section attribute", "iter_record_objects_by_section()"],
     "Oracle: stack of sections. Sequences of 5 (6) items.")

prop("C27", "Messages are rendered, counted and suppressed faithfully",
     "Every message is printed exactly once with its location, kind, text and "
     "category, in full mode below the quoted source line with a marker and "
     "followed by its explanation; places mentioned in a message are the file "
     "(from the folder common to all files) and line meant; a configured prefix is stripped from the "
     "location only. Errors and warnings are counted also if suppressed, only "
     "messages of a suppressed kind are hidden, and exactly fatal errors "
     "raise TRLC_Error with the same data.",
     "all kinds, options, texts, blanks around the quoted token, prefixes and "
     "sequences of messages within the bounds",
     "Tests compare the output of fixed runs; formatting depends on blanks, "
     "tabs, lines of the explanation and options.",
     [("output", "trlc/errors.py:Message_Handler.emit"),
      ("source context", "trlc/lexer.py:Source_Reference.context_lines"),
      ("mentioned places",
       "trlc/trlc.py:Source_Manager.cross_file_reference")],
     ["output stream", "counters", "exceptions"],
     "Oracle: expected output assembled from the manual's layout. Texts of up "
     "to 2 characters, 2 (3) messages. Mentioned places: 14 messages about "
     "duplicates and other files, 3 of them over 5 (6) folders, 37 failing expressions.")

prop("C20", "Any input gives diagnostics only; rejected exactly if in error",
     "For every text of the registered files, processing ends without "
     "internal failure, and all messages lie within those files. process() "
     "returns no symbol table exactly if an error was reported. Error "
     "recovery influences neither that nor the first error.",
     "files on disk with any of 17 bytes in 2 (3) places; every truncation of the samples, every token replaced, inserted or "
     "moved, every character replaced by any of the alphabet",
     "Tests contain about a hundred wrong files; crashes and silent "
     "acceptance need the one combination of place and token nobody wrote.",
     [("parser", "trlc/parser.py:Parser.parse_rsl_file"),
      ("parser", "trlc/parser.py:Parser.parse_trlc_file"),
      ("processing", "trlc/trlc.py:Source_Manager.process")],
     [API],
     "No oracle for the messages: relations between outcomes. Three samples "
     "of 75 to 116 tokens that use every construct. Errors that leave "
     "process() with a symbol table are known findings.")

prop("C26", "Lint issues appear exactly when due and change nothing",
     "With and without the linter the same input is accepted with the same "
     "objects and values and gets the same errors, warnings and check "
     "messages. The linter reports impossible or weird array bounds, "
     "ambiguous separators, questionable unions, abstract types without "
     "extension, unmarked final types, sign precedence, partial union "
     "access and unused imports exactly where they occur.",
     "all array bounds up to the bound, all hierarchies of 4 types, all "
     "unions of 3 of 5 types, all pairs of uses of two imports",
     "Tests have one file per issue; missing or spurious issues depend on "
     "the position in a hierarchy, list or value.",
     [("linter", "trlc/lint.py:Linter"),
      ("imports", "trlc/ast.py:Compilation_Unit.mark_used")],
     ["issues", API],
     "Oracle: rules of documentation/linter.md written down independently.")

prop("C23", "The RST report shows each selected record once with its values",
     "The RST converter renders every record that passes the source file and "
     "record filters exactly once, below exactly the headings of its "
     "sections (non-blank names of one line), where sections of equal path "
     "share one heading. The requested fields are shown with exactly their "
     "values, labelled fields before prose (Markup_String and description), "
     "in the requested order; references become roles that name the resolved "
     "objects, and words, lines and paragraphs of texts are kept inside the "
     "directive. If the input has an error the converter fails and writes no "
     "report.",
     "all placements of records in nested sections, all filters, all field "
     "lists, all texts up to the length bounds",
     "Tests compare a few golden reports; lost, duplicated or misplaced "
     "records depend on equal names, the order of sections and odd values.",
     [("renderer", "tools/trlc_rst/trlc_rst.py:TRLCRST")],
     ["the written report", "exit status of the converter"],
     "Oracle: expected directives computed from the records; a small reader "
     "of the report in props/report.py. Unspecified: the column of labels, "
     "Decimal shown as float, markup inside arrays, links inside tables, "
     "empty section names.")

prop("C21", "Verification never misses a problem and changes nothing else",
     "If evaluating a check fails for some object (null, division by zero, "
     "array index) although the fatal checks before it and those of its "
     "tuples passed, --verify reports an issue of that kind for this check, "
     "unless it says that something is not supported. A check reported as "
     "always true holds for every object, and an object shown as a definite "
     "example for a problem (outside quantifiers) has this problem. "
     "Verification never fails itself and does not change any other message "
     "or what is accepted.",
     "all object values up to the bounds, for each of several hundred "
     "combinations of checks and the knowledge guarding them",
     "Tests compare the issues of some dozens of checks with recorded output; "
     "whether a silent or always-true verdict is right can only be said by "
     "looking at all objects.",
     [("VC generation", "trlc/vcg.py:VCG"),
      ("evaluation", "trlc/ast.py:Expression.evaluate")],
     ["verification issues", API],
     "The verification itself runs natively per model (its solver is a "
     "binary library); its verdict is then decided symbolically against the "
     "evaluator for all objects. That a check which follows references is "
     "taken to run after fatal checks behind it that follow none is a known "
     "finding; nested quantifiers "
     "are not supported by the code under test.")

prop("C22", "The API shows exactly what is declared",
     "The symbol table contains exactly the declared packages, types and "
     "objects besides the builtins. Each type shows its name, package, "
     "location, qualifiers, parent, description, components in order "
     "(inherited ones first) with type, bounds, optional flag and owner, "
     "literals, separators, checks and frozen values as written. Each object "
     "shows its type, package and the values of all components with their "
     "kind, type and location. --debug-api-dump shows these values for every "
     "object.",
     "all combinations of qualifiers, descriptions, component types, bounds, "
     "separators, checks and values within the bounds",
     "The tests compare dumps of a few models and never look at most "
     "attributes of the API; order, inheritance and locations depend on the "
     "combination of declarations.",
     [("types", "trlc/ast.py:Record_Type"),
      ("declarations", "trlc/parser.py:Parser.parse_type_declaration"),
      ("objects", "trlc/ast.py:Record_Object"),
      ("tables", "trlc/ast.py:Symbol_Table.values")],
     ["attributes of the nodes in the symbol table"],
     "Oracle: the declaration that the text was made from. Up to 3 fields, "
     "literals and levels.")

prop("C28",
     "Files are accepted exactly when they follow the grammar and static rules",
     "A .rsl or .trlc file is processed without errors if and only if its "
     "sequence of tokens follows the grammar of the manual and the static "
     "rules for it: packages and imports first; known, complete and legal "
     "types for components, parents and references; unique names; legal "
     "bounds, separators, qualifiers (abstract, final, optional); freezes of "
     "existing components; checks on types of the package; values, "
     "references, sections and objects in the form the component demands. "
     "Anything else is rejected with an error, no matter where the deviation "
     "is.",
     "all sequences of tokens over a vocabulary per construct, at each place "
     "of the grammar, up to the length bounds",
     "The tests contain one file per message. Which other sequences of tokens "
     "slip through (a missing bracket, a trailing comma, a keyword in place "
     "of another) or are refused can only be said by looking at all of them.",
     [("parser", "trlc/parser.py:Parser.parse_trlc_file"),
      ("declarations", "trlc/parser.py:Parser.parse_type_declaration"),
      ("values", "trlc/parser.py:Parser.parse_value"),
      ("checks", "trlc/parser.py:Parser.parse_check_block")],
     ["errors", API],
     "Oracle: a reference parser written from the manual (props/declp.py). "
     "Expressions are those of C08 and C09; here conditions are atomic. Where "
     "the manual is silent the sequence is left out.")

prop("C29",
     "Exactly the files asked for are processed",
     "The command line tool processes the .rsl and .trlc files it is given by "
     "name and those anywhere below the directories it is given (the current "
     "directory if nothing is given), each of them once no matter how often "
     "or under which spelling it is named. Nothing in a directory whose name "
     "starts with bazel- is taken unless --include-bazel-dirs is given or "
     "that directory itself is named. Files below -I directories are "
     "available to be imported and are processed only when needed. Names that "
     "do not exist, other kinds of files and wrong options are errors. The "
     "summary and --show-file-list tell exactly what was processed.",
     "all combinations of names, places, spellings, options and needs of "
     "files in small directory trees",
     "Tests run the tool on fixed directories; which file is silently left "
     "out or taken by mistake depends on the combination of names and "
     "options.",
     [("directories", "trlc/trlc.py:Source_Manager.register_directory"),
      ("include paths", "trlc/trlc.py:Source_Manager.register_include"),
      ("command line", "trlc/trlc.py:trlc")],
     ["output and exit status of the tool"],
     "Real directory trees in the scratch directory of the run. Unspecified: "
     "files called just .rsl or .trlc, links.")

prop("C30",
     "Clients are told about the progress of processing",
     "Whatever the files contain, Source_Manager.process calls "
     "callback_parse_begin exactly once, before any progress or message of "
     "the processing, and callback_parse_end exactly once, when nothing more "
     "follows, also if processing stops early because of errors. Between them "
     "callback_parse_progress is given whole percentages that never exceed "
     "100 and never go back, at most once per file processed; if there are "
     "no errors exactly once per file, with the share of the files processed "
     "so far, 100 after the last one.",
     "all combinations of options, mistakes, values, imports and primary "
     "files within the bounds",
     "The tests never look at these callbacks; on which of the many ways out "
     "of processing the end is not signalled depends on the combination of "
     "mistakes and options.",
     [("processing", "trlc/trlc.py:Source_Manager.process"),
      ("progress", "trlc/trlc.py:Source_Manager.signal_progress"),
      ("needed files", "trlc/trlc.py:Source_Manager.build_graph")],
     ["callbacks of the Source_Manager"],
     "Oracle: the files that are needed (closure of the imports) and the "
     "mistakes made.")


prop("C31",
     "Tokens are linked to the syntax elements they belong to",
     "For every accepted file the token stream of its parser "
     "(lexer.tokens) covers the text completely and in order, and each token "
     "has an ast_link (only commas between members of a union have none, "
     "comments are linked to the package of the file). The link of an identifier denotes exactly the "
     "package, type, component, field, literal, object, variable, function or "
     "separator that the identifier names or declares there; keywords are "
     "linked to elements of their kind, literals to the literal with their "
     "value, matching braces to the same element.",
     "all combinations of two declarations, of two values in objects and of "
     "operands in expressions within the bounds",
     "No test looks at ast_link, which editors use for navigation; each of "
     "about 150 places in the parser that set a link is needed for one "
     "construct in one context.",
     [("links", "trlc/ast.py:Node.set_ast_link"),
      ("parser", "trlc/parser.py:Parser"),
      ("tokens", "trlc/lexer.py:Token_Stream.token")],
     ["ast_link of the tokens in Source_Manager.rsl_files and trlc_files"],
     "Oracle: generated text in which each name is annotated with what it "
     "denotes. 13 declarations, 21 values, 12 expressions with 17 + 18 + 5 + 3 "
     "kinds of operand.")
