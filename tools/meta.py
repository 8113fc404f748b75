"""What the properties say; gen.py writes properties.jsonl, MANIFEST.json and the
per-property part of DESIGN.md from it."""

P = []


def prop(id, title, statement, over, text, why, files, mech, design, thorough=True, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, design=design, thorough=thorough, note=note))


CT, PA, LX, US = ('datashape/coretypes.py', 'datashape/parser.py', 'datashape/lexer.py',
                  'datashape/user.py')
DI, PR, PM, VA = ('datashape/discovery.py', 'datashape/predicates.py', 'datashape/promote.py',
                  'datashape/validation.py')
UT, TE, TS, EQ = ('datashape/util/__init__.py', 'datashape/util/testing.py',
                  'datashape/typesets.py', 'datashape/internal_utils.py')
DP, ER, TY, DA = ('datashape/dispatch.py', 'datashape/error.py', 'datashape/type_symbol_table.py',
                  'datashape/py2help.py')

prop('C01', 'Printing and parsing are inverse',
     'The text of any datashape or type of the language parses back to an equal value, '
     'in which every field name, extent, parameter, unit, time zone and category (up to ten '
     'texts, integers or booleans) is the same; '
     'this holds whatever characters names and texts contain and however the type constructors '
     'are nested. Text that was printed from a parsed value is printed the same again.',
     ['inputs'],
     'all types built from every constructor of the language with symbolic contents: unicode '
     'names and strings, extents, type variable names, two or three levels of nesting; every type '
     'of the language in every place that a type can have a part in; types of up to eight, or seventeen, parts or '
     'levels with any one of them different',
     'The tests print a few dozen fixed types; the escaping, quoting and option rules depend on '
     'every character and every nesting.',
     [CT, PA, LX],
     [('str() of the types', CT), ('recursive-descent parser', PA), ('token patterns', LX)],
     'Types are built with symbolic names, extents and texts by the real constructors, printed by '
     'the real __str__ (the text is a string whose characters are solver variables), lexed and '
     'parsed by the real lexer and parser (regular expressions are executed symbolically from '
     'their parse trees), and compared with an independent structural comparison.')

prop('C02', 'The print width changes layout, never meaning',
     'Pretty-printing a datashape at any width gives text that parses back to the same datashape '
     'and differs from the text printed without limit in blanks and line breaks only.  A '
     'datashape that fits into the width is printed on one line.',
     ['inputs', 'configurations'],
     'nested records and tuples with field names and extents of symbolic length, every width '
     'from -2 up to beyond the longest line; every type in every place of every other at every '
     'width; up to eight fields with long names',
     'The tests print two records at one width; where lines break depends on the lengths of all '
     'parts and the width together.',
     [CT],
     [('pprint', CT)],
     'The width is a solver variable, so every comparison of a length with it is a path '
     'condition; every resulting layout is stripped of layout and compared, and parsed again.')

prop('C03', 'The parser accepts the documented grammar and builds the type it denotes',
     'A text is accepted if and only if the grammar given in the documentation derives it and the '
     'constructors accept its parts, and the result is the type that the grammar denotes, where '
     'option, ellipsis, keyword arguments, quoted field names and documented abbreviations are '
     'equal to their spelled-out forms.  Anything else is refused with a syntax error or the '
     'error documented for the part; it is never partly read or silently changed.',
     ['inputs'],
     'all texts of up to four (thorough five) characters over the alphabet of the language, all '
     'texts of one to three characters placed inside each construct, all names of a '
     'type or constructor with any one character changed, added or removed, lists of up to eight '
     'items with one malformed anywhere',
     'Tests parse fixed texts; they cannot show that no malformed text is accepted.',
     [PA, LX, 'datashape/type_symbol_table.py'],
     [('recursive descent', PA), ('symbol table', 'datashape/type_symbol_table.py')],
     'A reference parser, written from the grammar in the documentation, runs on the same '
     'symbolic text; both verdicts and both results must agree on every path.')

prop('C04', 'The lexer follows the documented token grammar',
     'Every text is divided into the tokens of the documented lexical grammar: each token carries '
     'its value (numbers, booleans, unescaped strings, names) and the exact span of the text it '
     'came from, blanks and comments are skipped, and spans never overlap or skip anything else. '
     'The first character that starts no token is reported as a syntax error at that place.',
     ['inputs'],
     'any two (three over a reduced alphabet) unicode characters, runs of digits, all string '
     'escapes including surrogate pairs, every comment and blank between tokens, every pair of '
     'tokens with anything between, texts and numbers of up to thirty characters',
     'The tests lex one sample of each token; neighbouring characters decide where tokens end.',
     [LX], [('token table and lex()', LX)],
     'The compiled patterns of the real token table are executed symbolically (backtracking over '
     'sre_parse trees) and compared with a hand-written reference lexer on the same characters.')

prop('C05', 'Syntax errors point at the place they are about',
     'The line, column and caret of a syntax error designate the character or token at which the '
     'text stops being a datashape, for any text, file name and number of lines.  A text in '
     'which one character is replaced is either accepted or refused with such an error; no other '
     'exception escapes.',
     ['inputs'],
     'every position in texts with any arrangement of line breaks; valid texts with any one '
     'character replaced by any other; errors embedded in any layout; a wrong token at any place of '
     'records and tuples; positions up to 1100 (thorough 4200) characters into a text',
     'Tests check the positions of four errors.',
     [ER, PA, LX], [('DataShapeSyntaxError', ER), ('raise_error', PA)],
     'The position is recomputed from the symbolic text by an independent definition of lines '
     'and columns and compared with the attributes and printed caret of the real exception.')

prop('C06', 'Equality is identity of structure, and equal types hash alike',
     'Two datashapes are equal exactly when they have the same constructors, parameters, names '
     'and order of fields throughout; only a measure and the datashape of just that measure, and '
     'a fixed dimension and its number, are identified.  Equality is symmetric and reflexive, '
     'inequality is its negation, equal values have equal hashes, and comparison with foreign values is False.',
     ['inputs'],
     'pairs of types of independent symbolic contents: any two lists of up to three dimensions, '
     'any two leaves, composites of one to two levels, records of any names and order, any two '
     'types of the language in any place of another, types of up to eight, or seventeen, parts or levels with a '
     'difference at any one',
     'Tests compare chosen pairs; equality and hash are relations over all pairs.',
     [CT], [('Mono.__eq__, __hash__', CT), ('Mono._slotted', CT)],
     'Both values are symbolic; == on the real objects must agree with a structural reference on '
     'every path, and hashes are compared through an injective uninterpreted encoding of hash(), '
     'so that hash agreement cannot come from collisions.')

prop('C07', 'Types are rebuilt from their parameters and survive pickling',
     'Rebuilding a type from its parameters, copying it, and pickling and unpickling it all give '
     'an equal value of the same class with the same text and hash, and the copy can be used '
     'wherever the original can.',
     ['inputs'],
     'every constructor with symbolic contents, every type in every place of every other, all '
     'pickle protocols that the library supports, types of up to eight, or seventeen, parts',
     'Tests pickle a list of samples with fixed contents.',
     [CT], [('Mono.parameters / info', CT), ('__reduce__/__getstate__', CT)],
     'pickle is replaced by its documented reduce protocol on symbolic objects (the native '
     'counterpart runs the real pickle); results are compared structurally.')

prop('C08', 'Subshape indexing follows the language\'s indexing rules',
     'Indexing a datashape gives the type of the indexed value: integers remove a dimension, '
     'slices keep exactly as many items as slicing a sequence of that length (and of unknown '
     'length where it is unknown), lists give their length, names and positions select record '
     'fields in the requested order.  Names that are no fields and indices without a dimension '
     'are refused.',
     ['inputs'],
     'slices with any start, stop and step in -4..4 (thorough -6..6) of any extent, index tuples '
     'over up to three dimensions in front of every type, record selections by any names or '
     'positions, up to eight, or seventeen, dimensions or fields',
     'Tests check a dozen slices of fixed extents; clamping, negative and empty slices depend on '
     'all four numbers together.',
     [CT], [('subshape', CT), ('Record subarray/ fields', CT)],
     'Start, stop, step and extent are solver variables; the extent of the result must equal a '
     'reference count of the selected indices.')

prop('C09', 'Concatenation adds the leading extents and nothing else',
     'Concatenating datashapes that differ at most in the leading extent gives the same datashape '
     'with the sum of the extents, and a single datashape is given back as it is. Any difference '
     'behind the leading dimension, and, among several operands, one without a fixed leading '
     'dimension, are refused in whatever position they are.',
     ['inputs'],
     'up to four (thorough six) operands with symbolic extents and up to two more dimensions in '
     'front of every type, a difference at any operand and dimension; up to eight, or seventeen, operands and '
     'dimensions with one odd one',
     'The tests concatenate four examples.',
     [UT], [('cat_dshapes', UT)],
     'Extents are solver integers; the result is compared with the sum term and the differing '
     'operand is chosen by the solver.')

prop('C10', 'Dimensions compose in front of a measure and come off again',
     'Multiplying dimensions and measures, given as objects, integers or text and grouped in any '
     'way, gives the datashape of exactly these dimensions and that measure; shape, measure, '
     'length, indexing and iteration report them, an option has the shape of its type, and '
     'removing k leading dimensions gives the datashape of the others.  A measure in front or '
     'a dimension in the last place is refused.',
     ['inputs'],
     'up to four dimensions of every kind with symbolic contents, every grouping and every kind '
     'of operand, every k, in front of every type; every measure in front of every type; up to '
     'eight, or seventeen, dimensions',
     'Tests build one or two products.',
     [CT], [('DataShape.__init__, __mul__, __rmul__, subarray', CT)],
     'Symbolic dimensions are multiplied in solver-chosen groupings and the result is compared '
     'with the list of dimensions.')

prop('C11', 'Conversion to and from NumPy keeps shape and element type',
     'Converting a datashape to NumPy gives its extents and an element type that holds exactly '
     'its values, and converting back gives the same datashape wherever NumPy has the type: '
     'scalars, fixed-length text, dates with units, records with their fields in order, and '
     'subarrays.  Decimals get the smallest integer or float that holds every value of their '
     'precision; what NumPy cannot represent is refused.',
     ['inputs'],
     'every scalar, any extents, text of any length in any encoding, records of symbolic names, '
     'decimals of every precision 1..38 and scale, every date unit, both byte orders; every type '
     'for what has no NumPy counterpart; records of up to eight, or seventeen, fields and up to eight, or seventeen, dimensions',
     'Tests convert single samples; ranges of decimals, sizes and the choice of containers are '
     'arithmetic over all precisions.',
     [CT], [('to_numpy, to_numpy_dtype', CT), ('from_numpy_dtype, from_numpy', CT)],
     'NumPy dtypes with symbolic parts are represented by a proxy that is realised only at '
     'NumPy\'s border; the range of a decimal is compared with the range of its container as an '
     'arithmetic fact over symbolic precision and scale.')

prop('C12', 'Promotion yields the same least common type in either order',
     'Promoting two types gives a type that both fit into, the same in either order, that type '
     'itself for equal operands, and an option exactly when one of them is an option (unless '
     'promotion of options is switched off).  It agrees with NumPy\'s promotion for numbers, and '
     'types without a common type are refused.',
     ['inputs'],
     'all pairs of numeric and other scalars, each optional or not and given as type or '
     'datashape, every two types of the language, decimals of every precision and scale, both '
     'settings of the option flag',
     'Tests promote a few pairs.',
     [PM], [('promote, optionify', PM)],
     'The pair, wrapping, precision and scale are symbolic; laws are assertions over the real '
     'function\'s results, NumPy\'s promotion is the oracle for plain numbers.')

prop('C13', 'The discovered datashape describes the value it was discovered from',
     'The datashape discovered from a value describes it: every number, text, date or missing '
     'value in it belongs to the discovered element type, every extent is the number of items, '
     'fields are the keys, and parts that are missing somewhere are optional.  The result does '
     'not depend on the kind of sequence, nor (up to the order of fields) on the order of rows.',
     ['inputs'],
     'scalars with symbolic contents, sequences and mappings of up to three items and two levels '
     'in every combination of element kinds, NumPy arrays of every dtype; sequences, tables, '
     'mappings and arrays of up to eight (thorough ten) items, columns or keys with one odd one '
     'at any place, or of up to 33 (thorough 129) rows',
     'Tests discover some thirty values; the unification of rows depends on all combinations.',
     [DI], [('discover and its rules', DI), ('unite, unite_identical, unite_base, '
                                                'unite_merge_dimensions', DI)],
     'Values are built from symbolic integers, choices and texts; the discovered type is '
     'interpreted by an independent membership relation and must contain the value.')

prop('C14', 'Text is discovered as the value it spells, and never fails',
     'Discovering text always gives a type: integers, reals, times of day, dates, date-times and '
     'durations when and only when the whole text spells one in the documented notation, '
     'the missing value for empty text, and string otherwise.  A word of letters only is never a '
     'date.',
     ['inputs'],
     'every text of up to three characters (any unicode), printable text of four, digit '
     'sequences, clock times and durations of symbolic digits, every answer of the date parser; '
     'phrases of up to five words, numbers of up to forty digits, spelled values with any one '
     'character changed',
     'Tests discover about twenty texts.',
     [DI], [('discover for str', DI), ('timeparse, deltaparse', DI)],
     'int(), float(), strptime and str methods are executed symbolically on the characters; '
     'dateutil is replaced by a nondeterministic stub (any date-time or any of its documented '
     'errors), so that every answer it could give is covered.')

prop('C15', 'Types that meet are united to their least common generalisation',
     'Rows that meet in one column get the least type that generalises all of them, in any order '
     'and with any repetition; missing values make it optional, equal extents stay fixed, '
     'different extents become variable, records keep every field.  Where no such type exists '
     'the union is refused rather than guessed.',
     ['inputs'],
     'up to four types of the generalisation order in any order, columns of records with any '
     'subset of fields, arrays of any extents; columns and arrays of up to eight, or seventeen, items with one or '
     'two odd ones at any place',
     'Tests unite a few pairs.',
     [DI], [('lowest_common_dshape', DI), ('unite_*', DI)],
     'The reference is the least upper bound in the documented order computed over symbolic '
     'indices; every permutation is a choice of the solver.')

prop('C16', 'Predicates answer from the structure of the type alone',
     'Each predicate gives the same answer for a type, its datashape and its text, and that '
     'answer is determined by the documented structure: dimension, record, date, number, '
     'boolean, scalar and fixedness are seen through options and shapes, and components are '
     'found at any depth.',
     ['inputs'],
     'every constructor of types nested up to two (thorough three) levels, with symbolic '
     'dimensions and names; every type in every place of every other; types of up to eight parts',
     'Tests ask each predicate about two or three types.',
     [PR, UT], [('is* predicates', PR), ('has, collect, has_var_dim, has_ellipsis', UT)],
     'Each predicate is compared with an independent recursive definition on symbolic types in '
     'all three forms.')

prop('C17', 'More than one wildcard in a shape is refused, wherever the shape is',
     'A datashape is refused exactly when one of the shapes in it, at any depth inside records, '
     'tuples, functions, maps, options or units, contains more than one ellipsis, named or not; '
     'wildcards of different shapes never add up.  The parser and the validator agree.',
     ['inputs'],
     'any arrangement of up to four dimensions, at any depth of two composite constructors, and '
     'siblings with wildcards of their own; up to eight, or seventeen, parts or levels',
     'Tests validate four texts.',
     [VA, UT], [('validate, traverse', VA), ('dshape', UT)],
     'A reference count of wildcards per shape over the symbolic type decides the verdict.')

prop('C18', 'A value validates against a schema iff it has its shape, fields and types',
     'Validation of a value against a schema succeeds exactly when the value has the extents, '
     'nesting, fields and element types the schema states, and fails for every other value; '
     'any one wrong item, missing field or wrong extent anywhere makes it fail.',
     ['inputs'],
     'values of any kinds in sequences of up to three items and two levels against schemas with '
     'symbolic extents; mappings with any subset of keys; NumPy arrays of any shape; up to eight '
     'items, fields, alternatives or levels with one wrong at any place',
     'Tests validate about ten pairs.',
     [US], [('validate and its rules', US)],
     'Value and schema are generated independently from symbolic choices and compared with a '
     'membership relation.')

prop('C19', 'assert_dshape_equal passes iff equal up to what the flags ignore',
     'The assertion helper passes exactly when the two datashapes are equal apart from the '
     'aspects its flags ignore (dimensions, field order, text encoding, text length, time zones '
     'and units of time differences, at any depth), and otherwise fails with an '
     'assertion error, never another error, in either order of the operands.',
     ['inputs', 'configurations'],
     'any pair of element types with one aspect differing, all flags, every composite around '
     'them; every two types of the language; types of up to eight, or seventeen, parts or categories',
     'Tests check one difference for each flag at one place.',
     [TE], [('assert_dshape_equal', TE)],
     'Two symbolic types and symbolic flags; the verdict is compared with equality of the types '
     'after the ignored aspects are erased.')

prop('C20', 'Type sets are sets of types, and the widest type stays in its kind',
     'A type set contains exactly the types it was made from, in their order, its union with '
     'another joins the members, a name is registered once, and argument types match a signature '
     'exactly when each position does.  The widest type of a numeric type is the largest of its '
     'own kind, keeping optionality, and is its own widest type; decimals and time differences '
     'stay as they are, and types without a kind are refused.',
     ['inputs'],
     'every scalar type and option, any sets of up to four types, signatures of up to three '
     'positions, decimals of every precision; up to eight members or positions',
     'Tests check some members and six widest types.',
     [TS], [('TypeSet, matches_typeset, maxtype, supertype', TS)],
     'Members and arguments are symbolic choices over the real sets; results are compared with '
     'set semantics and kind tables.')

prop('C21', 'The graph helpers order, group and close any small graph correctly',
     'Topological sorting lists every node once with all edges pointing forward, and refuses '
     'graphs with a cycle; reversing a graph turns every edge around, and descendants are exactly '
     'the reachable nodes, also in cyclic graphs.  Grouping keeps every item once, under its key '
     'and in order.',
     ['inputs'],
     'every directed graph of up to four nodes given by symbolic edges, item lists of up to four; '
     'chains of up to seven nodes with any edge added and any removed, up to seven items under '
     'keys of any kind',
     'Tests use three graphs.',
     [EQ, DI], [('_toposort, groupby, reverse_dict', EQ), ('descendents', DI)],
     'Edges are solver booleans; the result is compared with a transitive closure.')

prop('C22', 'Time units have one canonical spelling, and every other word is refused',
     'A time unit may be given by its symbol or name, singular or plural, with surrounding '
     'blanks; all spellings give the same time difference type, equal in comparison, hash, text '
     'and NumPy type, and normalising a unit again changes nothing.  Any other word is refused '
     'with a value error.',
     ['inputs'],
     'all texts of up to three (thorough four) characters and all names with any one character '
     'changed, any ending and leading blank',
     'Tests normalise six words.',
     [CT], [('normalize_time_unit, TimeDelta', CT)],
     'The unit is a string of solver characters; acceptance and result are compared with a '
     'reference that lists units and names.')

prop('C23', 'A record has exactly the fields it was given, in their order, each name once',
     'However a record is made (from pairs, a mapping, a literal or text), its names, types, '
     'fields, mapping and lookup by name all tell the same fields in the order given, whatever '
     'characters the names contain.  A name that occurs twice, also after conversion to text, is '
     'refused with a value error, a malformed literal with a type error, and a lookup of any '
     'other name with a key error.  Later changes to what it was made from or gave away do not '
     'reach it.',
     ['inputs', 'histories'],
     'up to two (thorough three) fields with any unicode names of up to one (two) characters and '
     'six kinds of types, every way to build a record, every shape of literal; up to eight, or seventeen, fields',
     'Tests build a few records with different names.',
     [CT, PA, TY], [('Record, RecordMeta', CT), ('struct types', PA), ('_struct', TY)],
     'Names are strings of solver characters; every accessor is compared with the list of fields '
     'the record was made from.')

prop('C24', 'A name denotes one type for good, and symbol tables are independent',
     'Registering a type under a name that is taken is refused and changes nothing; afterwards '
     'every name still denotes the type registered first, and other names are unknown.  A name '
     'added to one symbol table is known to texts parsed with that table and no other, earlier or '
     'later one, and a notation is refused exactly when the table lacks an entry it needs.',
     ['inputs', 'histories'],
     'any sequence of up to three (thorough four) registrations with symbolic names and sizes, '
     'any name of three letters near known names in three kinds of entries, any subset of the '
     'entries of a table for fourteen notations; up to eight names in one table',
     'Tests register one name twice.',
     [CT, TY, PA], [('Type.register, lookup_type', CT), ('TypeSymbolTable', TY),
                    ('symbol lookups of the parser', PA)],
     'Names are solver characters, missing entries solver booleans; lookups and parses are '
     'compared with a list of what was registered.')

prop('C25', 'Parameters of types are kept, made canonical, or refused',
     'String encodings are canonical whichever of their names is used and all others refused with '
     'a value error; lengths, time zones, units, value types, extents, type variables, categories '
     'and components read back as given, or are refused with the documented type or value error '
     'when they are of the wrong kind.  Components may be given as types, datashapes or text, and '
     'dshape() gives the same type for text, types and lists of parts.',
     ['inputs'],
     'every name of an encoding with any one character changed, added or removed, texts of up to '
     'two characters, all integers in wide ranges, every combination of up to three constructor '
     'arguments of four kinds, every type as a component of every other; up to eight components '
     'or categories',
     'Tests construct each type with one or two fixed parameters.',
     [CT, UT], [('constructors', CT), ('_launder', CT), ('dshape', UT)],
     'Parameters are solver integers and characters; what the type tells is compared with what it '
     'was given and with a table of encodings.')

prop('C26', 'Results depend on the arguments alone, and types never change',
     'What a call returns or raises is the same before and after any other calls, on the same or '
     'on other types, texts and values: parsing, printing, indexing, promoting, comparing, '
     'converting, discovering and validating remember nothing that shows.  No call changes its '
     'operands, and a type shares no container with what it was made from or what it gave away.',
     ['inputs', 'histories'],
     'pairs of types with symbolic extents and field names, every operation after itself on '
     'other types and after all others on the same or equal types (thorough: every pair), pairs '
     'of texts around a symbolic character, pairs of nested values with equal or near contents, '
     'lists and mappings of up to five items handed to every function that takes them',
     'Tests call each function on fresh arguments in one fixed order.',
     [CT, PA, UT, DI, PM, US, TE, PR],
     [('every public function', UT)],
     'Two worlds are executed symbolically, one with and one without the earlier calls, from the '
     'state of the package after import; the results must be structurally equal for all inputs.')

prop('C27', 'The representation of a type tells its class and every parameter',
     'repr() of a type names its class and each parameter with the representation of its value; '
     'datashapes, records and tuples are shown by their text, in one line or several, and this '
     'text parses back to the same type; sized types and strings are shown by their full text.  '
     'Types that differ in a parameter have different representations.',
     ['inputs'],
     'every class of types with symbolic parameters, types nested two (thorough three) levels '
     'deep with dimensions at every level, records and tuples of up to eight (thirteen) '
     'components around the line width; every type in every place of every other',
     'Tests show six fixed representations.',
     [CT], [('__repr__ of the types', CT), ('pprint', CT)],
     'Types are built with symbolic parameters; the text that repr() gives is compared, character '
     'by character, with the text spelled out from the parameters.')

prop('C28', 'The message of a failed comparison leads to the difference',
     'When assert_dshape_equal fails, the path at the end of its message can be followed in both '
     'operands: it leads to parts that differ in an aspect the flags do not ignore, and no further '
     'down is there a difference it could have led to.  Where it is empty the datashapes '
     'themselves differ, in the number of their dimensions.',
     ['inputs', 'configurations'],
     'every pair of element types of ten kinds with symbolic parameters, every flag, two '
     '(thorough three) composites around them, records, tuples and functions with two or three '
     'symbolic components that differ in any subset of places; types of up to eight, or seventeen, parts',
     'Tests look at one path for each kind of type.',
     [TE], [('assert_dshape_equal, _fmt_path, _check_slots', TE)],
     'The path in the message, whose parts are solver variables where they come from the '
     'operands, is followed in both symbolic operands; the parts it leads to are compared with '
     'the reference for equality up to the flags.')
