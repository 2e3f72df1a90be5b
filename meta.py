TECH = "symbolic execution of the compiled C code (LLVM IR) with z3"
NOTE = ("Bounded: every value of the symbolic inputs within the stated bounds, decided by z3 or by exact byte domains (cross-checked); counterexamples count only after the real, natively compiled code fails on them. "
        "Trusts the engine, its C library model and the harness's statement of the property.")
NA = {}
PROPS = {}
def P(i, title, statement, over, text, why, files, mech, obs, note="", technique=None):
    PROPS[i] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=obs, level_note=(note + " " if note else "") + NOTE)
    if technique: PROPS[i]["technique"] = technique

P("C01", "Parsing is total and safe on every input",
  "Every input handed to the configuration parser is either accepted or rejected with at least one error message, without any memory error, undefined arithmetic, leak or hang. "
  "Input that stops in the middle of a top-level object is rejected. Whatever is accepted can be written back, audited, compared with itself and turned into every kind of output without failure.",
  ["inputs", "programs"], "all byte strings, all edits of a configuration, all token sequences in any part of a configuration (within the bounds)",
  "The parse tests are fixed files; they reach a few hundred of the inputs and none of the malformed neighbourhoods.",
  ["parser.c", "parser_struct.c", "parser_field.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c", "linker.c", "linker_resolve.c", "linker_aliases.c", "config.c"],
  [("tokeniser", "parser.c parse_next"), ("per-object parsers", "parser_*.c"), ("linker", "linker.c ort_parse_close"), ("release", "config.c ort_config_free")],
  ["ort_parse_file, ort_parse_close, ort_write_file, ort_audit, ort_diff, ort_lang_*"])
P("C03", "What is written parses back to the same configuration",
  "For every accepted configuration, the canonical text written for it is accepted and describes the same configuration: the same structures, fields, types, limits, defaults, references, queries, updates, enumerations, bitfields, labels, comments, roles and role assignments. "
  "Writing the re-parsed configuration gives exactly the same text.",
  ["programs"], "all configurations built from the templates, for every value of their symbolic numbers, names, literals and tokens",
  "Round-trip tests exist for fixed files only; the values inside (numbers, escapes, real and date constants, role sets) are sampled once each.",
  ["writer.c", "parser.c", "parser_field.c", "parser_struct.c"],
  [("canonical writer", "writer.c ort_write_file"), ("parser", "parser.c ort_parse_file")], ["ort_write_file then ort_parse_file"])
P("C02", "Layout, case, and line ends do not change what is parsed",
  "Keywords and names mean the same in any case; any white space, comment or line-end convention between two tokens gives the same configuration; identifiers are a letter then letters and digits, and anything else is rejected. "
  "A string literal means its bytes as written, with only CRLF line ends read as LF, and is rejected rather than cut where it cannot be kept.",
  ["inputs"], "every case of every letter, every white space and comment between any two tokens, every byte of identifiers and literals (within the bounds)",
  "Tests use one spelling of each construct.",
  ["parser.c"], [("tokeniser", "parser.c parse_next, parse_nextchar")], ["ort_parse_file"])
P("C04", "Numbers are exact or refused",
  "An integer constant (default, limit, row limit, offset, enumeration value, bit index) is accepted exactly when it is in range and is then kept exactly, never wrapped or truncated. "
  "Enumeration values are distinct, and omitted values continue from the greatest given; bit indexes are distinct and within 0 to 63. "
  "A date constant is kept as the seconds at the start of that day in UTC, and impossible parts are refused.",
  ["inputs"], "every digit string and sign of the templates, every combination of explicit and automatic enumeration values",
  "Edges of 64-bit ranges and combinations of explicit and automatic values are unbounded; tests sample a dozen.",
  ["parser.c", "parser_field.c", "parser_enum.c", "parser_bitfield.c", "linker.c"], [("integer tokens", "parser.c parse_next"), ("automatic values", "linker.c"), ("dates", "parser_field.c parse_validate, parse_default")], ["ort_parse_file, ort_parse_close: struct field def and fvq, struct eitem value, struct bitidx value"])
P("C05", "Clashing and reserved names are refused, others accepted",
  "Two structures, enumerations or bitfields, two fields or actions of one structure, two items of one enumeration or bitfield, two roles anywhere, and two labels of one item in one language must differ ignoring case; equal names in different scopes are accepted. "
  "C and SQL reserved words are refused as names in any case, as are reserved role names and statements repeated where only one is allowed.",
  ["inputs"], "all spellings of three names in every scope; all reserved words in every mix of case",
  "Tests try one clash of identical spelling in some of the scopes.",
  ["parser.c", "parser_struct.c", "parser_field.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c"], [("reserved words", "parser.c parse_check_badidents, parse_check_dupetoplevel")], ["ort_parse_file accepts or rejects"])
P("C06", "References, types, and nesting resolve exactly as declared",
  "A reference is accepted exactly when its target is a row identifier or unique field of the same type; a named type, default item, nested structure or reference action exactly when it exists and applies. "
  "Nesting is accepted exactly when not recursive, with any number of structures sharing one; contained structures then precede their containers, and each path of nesting has one distinct alias.",
  ["programs"], "all combinations of target, source, type and attribute; all nesting graphs within the bounds",
  "Each test is one graph or one combination.",
  ["linker.c", "linker_aliases.c", "linker_resolve.c", "parser_field.c"], [("resolution", "linker_resolve.c"), ("recursion and order", "linker.c check_recursive, annotate"), ("aliases", "linker_aliases.c")], ["ort_parse_close: struct config"])
P("C07", "The order of objects and their split into files do not matter",
  "The same objects in any order, in one file or several, give the same configuration apart from positions: the same resolved references, roles, enumerations and generated SQL schema, and no difference between them.",
  ["programs"], "all orders of the objects of a configuration with every kind of forward reference, and all splits",
  "Tests are parsed in one order from one file.",
  ["linker.c", "linker_resolve.c", "parser.c", "diff.c"], [("deferred resolution", "linker_resolve.c"), ("ordering", "linker.c"), ("comparison", "diff.c")], ["ort_parse_file repeated, ort_parse_close, ort_diff, ort_lang_sql"])
P("C08", "Queries are accepted exactly when meaningful, and mean what they say",
  "A query is accepted exactly when each term, ordering, distinct, grouping and aggregate names a field reachable through non-null nested structures and suited to its operator, with no clause twice; everything else is refused. "
  "Each accepted clause resolves to that field and path in sequence, and a search is deemed unique exactly when its equality terms cover a row identifier, a unique field, or a unique combination.",
  ["programs"], "all combinations of kind, field, operator and path within the bounds",
  "Tests cover one query each; the tables of types, operators, null paths and aliases multiply.",
  ["parser_struct.c", "linker.c", "linker_resolve.c", "linker_aliases.c"], [("parsing of clauses", "parser_struct.c parse_config_search*"), ("validity", "linker.c check_searchtype, check_aggrtype, check_unique"), ("resolution", "linker_resolve.c")], ["struct search, sent, ord, aggr, group, dstnct"])
P("C09", "Updates, deletes and uniques are accepted exactly when meaningful",
  "An update or delete is accepted exactly when each modified and each constraining field exists in its structure and suits its modifier or operator, and an update has something to modify; a unique statement exactly when it names two or more plain fields not already so named together. "
  "Accepted ones keep their fields, operators, modifiers, names and sequence; an update without fields sets all but the row identifier.",
  ["programs"], "all combinations of field sort, operator and modifier, and all shapes within the bounds",
  "Tests cover one statement each.",
  ["parser_struct.c", "linker.c", "linker_resolve.c"], [("updates", "parser_struct.c parse_config_update, parse_struct_post"), ("validity", "linker.c check_modtype"), ("unique", "parser_struct.c parse_config_unique")], ["struct update, uref, unique, nref"])
P("C10", "Operations are allowed to exactly the roles given, and denied to others",
  "Each operation and field of a structure has exactly the roles assigned to it by name or, for operations, by \"all\", in any statement, case or order; with roles defined, those not assigned have none. "
  "Statements naming roles or operations that do not exist, reserved role none, or the same assignment twice are refused. Roles form exactly the tree written, under \"all\", apart from \"default\" and \"none\".",
  ["programs"], "all combinations of role sets and operations in two statements; all trees of roles",
  "A missing or extra role is a silent hole in access control; tests cover one assignment each and do not look at the result.",
  ["parser_struct.c", "parser_roles.c", "linker_resolve.c", "linker.c"], [("assignment", "parser_struct.c rolemap_assign"), ("resolution", "linker_resolve.c resolve_struct_rolemap*"), ("tree", "parser_roles.c parse_role")], ["rolemap of struct search, update, insert, field; struct role"])
P("C11", "The audit reports exactly what a role may do and see",
  "For every role, the audit lists exactly the inserts, updates, deletes and queries whose roles include it or a role above it. It lists each structure returned by those queries, or nested in one, once per query and path; "
  "with the fields that may be exported to the role, and whether the path may be exported.",
  ["programs"], "all combinations of allowed operations, noexports and audited role within the bounds",
  "An operation left out of an audit is believed impossible; tests compare a dozen fixed reports.",
  ["audit.c"], [("audit", "audit.c ort_audit, follow, rolemap_has")], ["ort_audit: struct auditq"])
P("C12", "Differences are reported exactly, each once, and the same both ways",
  "Comparing two configurations reports, for every object of either, exactly one of added, removed, modified or unchanged, and for the modified ones exactly the documented kinds of change, with the right objects; nothing else. "
  "Equal configurations differ in nothing, and two configurations differ one way if and only if they differ the other.",
  ["programs"], "all pairs of variants in one place, and variants in any two places, of a configuration",
  "Migration and review rely on it; tests are pairs of fixed files, one change each.",
  ["diff.c", "writer-diff.c"], [("comparison", "diff.c ort_diff"), ("per-object", "diff.c ort_diff_field, ort_diff_search, ort_diff_update, ort_diff_role")], ["ort_diff: struct diffq"])
P("C13", "The generated SQL schema is the schema that was described",
  "The SQL written for any accepted configuration is well-formed and declares exactly its structures as tables, and of each exactly its fields as columns, in sequence: with a storage class fit for the type, NOT NULL unless null, the primary key, uniqueness (single and combined), the default value, and the foreign keys with their delete and update actions. "
  "No comment, default text or name of any accepted configuration makes it anything else.",
  ["programs"], "all combinations of type, flags, default, reference, actions, uniques, comments and names within the bounds",
  "A lost constraint or broken statement shows only in a deployed database; tests run a few fixed configurations.",
  ["lang-sql.c"], [("schema", "lang-sql.c ort_lang_sql, gen_struct, gen_field, gen_fkeys, gen_unique"), ("comments and defaults", "sql.c, lang.c print_commentt")], ["ort_lang_sql, as parsed by harness/sqlm.h"])
P("C14", "Schema updates bring an old database to the new schema, or are refused",
  "For any two configurations, either the difference is refused, or the SQL written, run on the old schema, gives the new schema: tables, columns, constraints, and defaults; nothing is dropped unless destruction was asked for, and nothing is refused but what cannot be done by adding (or, when asked, dropping). Statements are well-formed and valid for the database engine.",
  ["programs"], "all pairs of variants in one or two places, with and without destruction",
  "A wrong migration destroys or corrupts data; tests are a few fixed pairs.",
  ["lang-sql.c", "diff.c"], [("update", "lang-sql.c ort_lang_diff_sql, gen_diff_*, gen_check_*"), ("comparison", "diff.c")], ["ort_lang_diff_sql on pairs, as run on the model in harness/sqlm.h"])
P("C15", "The statements in generated code do what their operations say",
  "The C, TypeScript and Rust sources each carry, for each look-up by unique field, query, insert, update and delete, exactly one statement, well-formed in its language and in SQL, and meaning just that operation: the structure's columns in reading sequence through each non-null nested structure, its joins (each introduced before use), terms with their operators on the right alias, distinct, grouping, order, limit and offset, modified and constraining columns, and a placeholder per parameter.",
  ["programs"], "all combinations of kind, field, path, operator, clauses, modifiers, nesting, nullness and name length within the bounds",
  "A wrong column or alias is a wrong answer at run time; tests compile the sources, and run a few of them, on fixed inputs.",
  ["lang.c", "lang-c.c", "lang-c-source.c", "lang-nodejs.c", "lang-rust.c"], [("statements", "lang.c gen_sql_stmts, gen_sql_stmt_schema, gen_sql_stmt_join"), ("columns", "lang-c-source.c gen_alias, lang-nodejs.c, lang-rust.c")], ["ort_lang_c_source, ort_lang_nodejs, ort_lang_rust, as parsed by harness/stmts.h"])
GNOTE = "The C is generated by the tree's own ort-c-header and ort-c-source for the specifications in corpus/gen, compiled, and linked with a model of sqlbox and kcgi; expectations come from a second reader of the specifications (gencc.py)."
P("C16", "Generated C lets a role do exactly what it was granted",
  "In C generated with roles, for every sequence of roles entered, an operation runs only when the current role or an ancestor of it (or all) was granted it, and otherwise the program ends without touching the database; an operation granted runs to its proper result, including the look-ups of nested structures it needs. A role is entered only from default, from itself, by ascending to an ancestor, or by falling to none; anything else ends the program, and a role once narrowed is never widened to another branch.",
  ["schedules", "programs"], "all sequences of roles within the bounds, every operation, any arguments",
  "Privilege confusion shows only for particular pairs of roles and statements; tests run none of the generated role code.",
  ["lang-c-source.c"], [("role hierarchy", "lang-c-source.c gen_role*, gen_open"), ("statements", "lang-c-source.c db_role, gen_func_*")], ["db_open, db_role, db_role_current and every operation, on a model of sqlbox (gen/gc.h)"], GNOTE)
P("C17", "Generated C operations bind, fetch, fill and release faithfully",
  "Each generated operation runs its one statement with each argument bound, with its type, nullness and value, to the column it is for (passwords hashed when set, checked against the hash when searched); each row is returned, in sequence, as an object whose every field, nested ones and nullable references included, has the value of its column; counts, identifiers and constraint failures are returned as they are. Whatever call to the database or allocator fails, the program ends or reports it, never carries on with wrong data; opening fails cleanly; everything is released.",
  ["inputs", "fault_sequences"], "any arguments and rows, any one failing call, within the bounds",
  "Swapped columns, wrong indexes and missing null checks surface only with the right schema and data; tests run a few schemas without failures.",
  ["lang-c-source.c", "lang-c-header.c"], [("binding", "lang-c-source.c gen_bind*, gen_insert, gen_update"), ("filling", "lang-c-source.c gen_fill, gen_reffind, gen_unfill"), ("queries", "lang-c-source.c gen_search, gen_list, gen_iterator, gen_count")], ["every generated operation, on a model of sqlbox (gen/gc.h)"], GNOTE)
P("C18", "Generated C validators accept exactly what the limits allow",
  "The validator of a field, and its entry in the table of inputs, accepts a value if and only if it is well-formed for the type, satisfies every limit given (numbers by value, text by length), and, for enumerations, is one of its items; the accepted value is kept.",
  ["inputs"], "any 64-bit integer, real or length, for every operator and type",
  "Off-by-one limits at extremes of the types; tests use a handful of values.",
  ["lang-c-source.c"], [("validators", "lang-c-source.c gen_func_valids, gen_enum_valids, gen_valid_table")], ["valid_keys and every valid_ function"], GNOTE)
P("C19", "Generated C exports exactly the exportable fields, with their values",
  "The JSON written for an object has exactly its fields but passwords, those marked noexport, and those the role which fetched it may not see, with their names and values; null fields and null nested structures are null; nested structures follow the same rule; arrays and iterators export each object in sequence.",
  ["inputs", "schedules"], "any rows, any role fetching, any role current when exporting",
  "A leaked secret field needs the right role, nesting and nullness; tests do not exercise roles.",
  ["lang-c-source.c"], [("export", "lang-c-source.c gen_json_out, gen_json_iterate, gen_json_array, gen_json_obj")], ["json_X_data, json_X_obj, json_X_array, json_X_iterate, as recorded by a model of kcgijson"], GNOTE)
P("C20", "Generated C imports JSON faithfully and refuses malformed JSON safely",
  "An object or array written with any values, in any sequence of fields, is imported with exactly those values (escapes decoded, base64 decoded, numbers exact); null and missing are told apart as they should be; a value of the wrong type, out of range, or malformed is refused; allocation failure is reported. No document, however damaged or cut, causes a memory error, undefined behaviour or a leak.",
  ["inputs", "fault_sequences"], "any values, one field in any form, any one byte changed, any cut, any failing allocation",
  "Parsers of untrusted input break on inputs nobody thought of; tests import a few documents.",
  ["jsmn.c", "lang-c-source.c"], [("tokens", "jsmn.c"), ("import", "lang-c-source.c gen_json_parse")], ["jsmn_parse, jsmn_X, jsmn_X_array, jsmn_X_clear, jsmn_X_free_array"], GNOTE)

TNOTE = ("The TypeScript which the current generator writes is type-checked with tsc, translated to C over a small model of the language's values (gen/ts2c.js, gen/jsrt.h) and executed symbolically with models of better-sqlite3, bcrypt and validator; counterexamples are replayed in the native build of the same translation. "
         "The translator and models are trusted.")
P("C28", "Generated TypeScript enforces exactly the declared roles",
  "In every role reached by any sequence of role changes, an operation runs if its role or an ancestor is assigned to it and otherwise aborts before touching the database; role changes are accepted exactly down the tree from where one is and otherwise abort; fields are exported only in roles which may see them.",
  ["programs", "histories"], "every sequence of roles, every operation, any arguments",
  "Tests compare or compile the generated text; they never run it.",
  ["lang-nodejs.c"], [("checks of roles", "lang-nodejs.c gen_op_role, gen_query"), ("changes of role", "lang-nodejs.c gen_ortctx_dbrole_*"), ("export", "lang-nodejs.c gen_ortobj")], ["ortctx.db_*, ortctx.role, ortobj.export in the output of ort-nodejs"], TNOTE)
P("C29", "Generated TypeScript operations do what the configuration says",
  "Each operation runs the statement the configuration describes with each argument bound to its own parameter (null, hashed, and 64-bit values included), and returns objects whose every field, nested and nullable ones too, is that of the row; lists keep order, absence gives null or empty, constraint failures give the documented result and other errors propagate. Bits, dates, and exported objects keep their values exactly.",
  ["inputs", "histories", "fault_sequences"], "any arguments, rows and results of the database",
  "Parameter numbering and conversions go wrong for one field type or clause in one position; tests never run the output.",
  ["lang-nodejs.c", "lang-sql.c"], [("operations", "lang-nodejs.c gen_insert, gen_update, gen_query"), ("filling", "lang-nodejs.c gen_fill, gen_reffind"), ("objects", "lang-nodejs.c gen_ortobj")], ["ortctx.db_*, ortobj.export, ort.* in the output of ort-nodejs"], TNOTE)
P("C30", "Generated TypeScript validators accept exactly what is declared",
  "A validator accepts input exactly when it is a value of the field's type within every declared limit or enumeration, gives exactly that value, and otherwise gives null; it never throws.",
  ["inputs"], "input of any type, any digits and bytes, at the extremes of the types",
  "Limits have edges at every bound of every type; tests never run the validators.",
  ["lang-nodejs.c"], [("validators", "lang-nodejs.c gen_ortns_express_valid")], ["ortvalid.ortValids in the output of ort-nodejs"], TNOTE)

P("C24", "Running out of memory is reported and harmless",
  "When one allocation fails, anywhere in parsing, writing, auditing, comparing, migrating or generating, the operation either reports failure or has exactly the result it has without that failure. It never crashes, uses released memory, accepts a refused specification, or keeps anything allocated once the configuration is released.",
  ["fault_sequences"], "the failing allocation is symbolic",
  "Every one of hundreds of allocations can fail; tests fail none of them.",
  ["parser.c", "config.c", "linker.c", "diff.c", "audit.c", "lang-*.c", "writer.c"], [("parsing", "parser.c, parser_*.c, linker*.c"), ("releasing", "config.c ort_config_free"), ("output", "lang-*.c, writer.c, writer-diff.c")], ["ort_config_alloc, ort_parse_file, ort_parse_close, ort_write_file, ort_audit, ort_diff, ort_write_diff_file, ort_lang_*"])
P("C25", "Failure to read or write is reported",
  "When reading a specification fails after any number of bytes it is not accepted. When any one write fails, the writer, the difference, the migration and every generator report failure: no truncated or holed output is ever taken for success.",
  ["fault_sequences"], "the failing read or write is symbolic",
  "Every one of thousands of writes can fail; one unchecked result silently gives a holed file.",
  ["parser.c", "lang.c", "lang-*.c", "writer.c", "writer-diff.c"], [("reading", "parser.c parse_check_error_eof"), ("output", "lang-*.c, writer.c, writer-diff.c")], ["ort_parse_file, ort_write_file, ort_write_diff_file, ort_lang_*"])

P("C23", "The JSON form of a configuration is valid JSON and says just what it says",
  "For every accepted configuration the JSON output is well-formed by RFC 8259, and holds exactly the roles, enumerations, bitfields, structures, fields, queries, role assignments, labels, texts, positions, limits, defaults and numbers of the configuration, each once, in the members of the published TypeScript interface. Every text read back from the JSON is the text of the configuration.",
  ["inputs", "programs"], "every configuration within the bounds",
  "Quotes, backslashes, control characters, large integers and rarely used clauses each have their own branch in the output; tests never look at what the JSON says.",
  ["lang-json.c", "ort-json.ts"], [("output", "lang-json.c ort_lang_json, gen_string, gen_pos, gen_struct"), ("interface", "ort-json.ts")], ["ort_lang_json, ort-json"])

P("C22", "Labels and translations survive extraction, update and joining of XLIFF",
  "Extraction gives well-formed XLIFF with each distinct default label once and nothing else. Updating keeps every unit, attribute and translation and adds just the new labels under new identifiers; joining gives a configuration which is accepted and has just the translations added, in the right language and never over an existing one. Files which are malformed, incomplete or cannot be expressed are refused with a message, without output and without crashing.",
  ["inputs", "configurations"], "every combination of labels, translations and markup within the bounds",
  "Special characters, empty elements, misplaced elements and language names combine in ways which the dozen of regression files do not.",
  ["lang-xliff.c", "xliff.c"], [("extraction, update, joining", "lang-xliff.c ort_lang_xliff_extract, ort_lang_xliff_update, ort_lang_xliff_join"), ("reading", "lang-xliff.c xliff_read, xstart, xend")], ["ort-xliff, ort_lang_xliff_extract, ort_lang_xliff_join, ort_lang_xliff_update"])

P("C32", "JSON formatted back by ort-json.ts is the configuration it was made from",
  "For every accepted configuration, reading the output of ort-json and formatting it with toString() of the ortJson.ortJsonConfigFormat class in ort-json.ts gives a specification which is accepted and is the same configuration: the same roles, enumerations, bitfields, structures, fields, types, references, actions, limits, defaults, labels, comments, queries, uniques and role assignments. Only layout and the order of operations with and without names may differ. Formatting never throws.",
  ["inputs", "programs"], "every configuration within the bounds",
  "The only test of this needs a tool which is rarely installed, and its samples have no dates as defaults, large reals, or unusual texts; each kind of clause has its own branch in the formatter.",
  ["lang-json.c", "ort-json.ts"], [("formatter", "ort-json.ts ortJson.ortJsonConfigFormat.toString"), ("output", "lang-json.c ort_lang_json")], ["ortJson.ortJsonConfigFormat.toString(), ort-json"])

P("C26", "The command line tools read, print and exit as their manuals say",
  "Each of the fourteen tools reads just the files named on its command line, or standard input when there are none, in order and on the right side of -f, with the options given. Its standard output is exactly what the library makes of them and its standard error the library's messages. It exits with the documented status: zero on success, and for ort-diff zero only without and one only with differences; for unknown options, missing files and refused specifications it prints nothing, says why and fails.",
  ["inputs", "configurations"], "every combination of options, operands and contents within the bounds",
  "Combinations of options, operands and bad input are many; the test suite runs few of the tools by their command line, and none with unusual ones.",
  ["main.c", "main*.c", "sql.c", "json.c", "rust.c", "cheader.c", "csource.c", "cmanpage.c", "nodejs.c", "javascript.c", "xliff.c", "audit-json.c", "sqldiff.c"], [("tools", "main.c, maindiff.c, mainaudit.c, audit-json.c, sqldiff.c, cheader.c, csource.c, cmanpage.c, nodejs.c, javascript.c, json.c, rust.c, sql.c, xliff.c: main"), ("manuals", "man/ort*.1")], ["ort, ort-audit, ort-audit-json, ort-c-header, ort-c-manpage, ort-c-source, ort-diff, ort-javascript, ort-json, ort-nodejs, ort-rust, ort-sql, ort-sqldiff, ort-xliff"])

P("C27", "The audit tools print the audit of the role, whole and well-formed",
  "ort-audit prints one aligned line for each operation and each structure (with -v: each path) in the audit of the named role, with its kind, name, path and position, and nothing else. ort-audit-json prints well-formed JSON (with -s a script holding it) with the role, and for each structure, function and field just what the audit says of it: exported or not, its functions by the names the C interface gives them, paths, kinds and texts.",
  ["inputs", "programs"], "every permission and text within the bounds",
  "An audit is only as good as its printed form; nothing in the test suite looks at the output of ort-audit-json, or at ort-audit with unnamed functions or texts with special characters.",
  ["mainaudit.c", "audit-json.c", "audit.c"], [("text", "mainaudit.c"), ("JSON", "audit-json.c gen_audit, print_doc")], ["ort-audit, ort-audit-json"])

P("C31", "The written difference lists each change exactly once, in its place",
  "The text of a difference names the files compared, then has exactly one line for each object added, removed or modified and each kind of modification, with the right kind and positions, each below the line of the object it is a part of. Nothing else is listed, and nothing at all for configurations which are equal.",
  ["inputs", "programs"], "every pair of configurations within the bounds",
  "Each kind of change has its own branch, and branches interact when several objects change; tests compare fifty fixed pairs, none with a role removed.",
  ["writer-diff.c", "diff.c"], [("text", "writer-diff.c ort_write_diff_file")], ["ort_write_diff_file"])

P("C33", "Only what has the syntax of ort(5) is accepted",
  "Every configuration accepted by the parser has the syntax its manual gives: each object, statement, clause and parameter is complete, closed and separated as the manual shows, with words, numbers, dates and literals only where it lets them be. Nothing missing is made up and nothing superfluous is passed over.",
  ["inputs", "programs"], "every sequence and edit of tokens within the bounds",
  "Tests have one or two malformed files for each kind of statement; there are thousands of ways to leave out, repeat or misplace a token.",
  ["parser.c", "parser_struct.c", "parser_field.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c"], [("parsers of statements", "parser_*.c"), ("syntax", "man/ort.5")], ["ort_parse_file, ort_parse_close"])
