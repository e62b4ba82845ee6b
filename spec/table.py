AI = 'abstract interpretation of MIR (linear-fact domain, loop fixpoints, rule contracts)'
NOTE = ('Every path of the analysed functions is over-approximated for all inputs and all rules; sub-rule calls use the contract '
        'proved for every rule kind (induction on the call depth). Trusts rustc\'s MIR, the std and read_token models and the analyser.')
RS = 'src/meta_rules/'

prop('C01', 'A successful parse has read the whole text',
     'When parsing a text with a syntax succeeds, the last rule of the syntax matched the text from its first byte to its last. '
     'If the rule matches only a part of the text, or the syntax has no rules, parsing fails.',
     ['inputs'], 'every syntax, every text (including empty and multi-byte text) and every indentation setting',
     'Tests parse a few ASCII texts; one wrong unit or comparison only shows on particular lengths or characters.',
     [RS + 'mod.rs'], [('end-of-text comparison after the last rule succeeds', 'parse_with_indent')], NOTE, AI)

prop('C02', 'Data of abandoned attempts never shows up, accepted data is never lost',
     'The data returned by a successful parse is exactly what the rules on the successful path added, in order. '
     'Data added by an alternative, repetition, list item or optional part that was given up is absent from the result, '
     'and data added by a part that was kept is still there.',
     ['inputs'], 'every combination of rules that backtracks, and every text',
     'Backtracking leaves stale data behind only for particular nestings of failing and succeeding parts; tests try a handful.',
     [RS + '*.rs', 'src/tokenizer.rs'],
     [('token count carried from rule to rule', 'TokenizerState'), ('stale data cut off before adding', 'tokenizer::read_data'),
      ('stale data cut off at the end', 'parse_with_indent')], NOTE, AI)

prop('C03', 'Every reported range says exactly which bytes were read',
     'Each part of a rule starts reading where the part before it stopped, and a successful rule reports a range that starts where '
     'it was applied and covers all its parts. The data added for a text, number, tag or node carries the range of the bytes it was read from, '
     'counted in bytes from the start of the text.',
     ['inputs'], 'every rule kind, every position in every text',
     'Tests compare a few ranges; an offset that is wrong only after a second alternative, a separator or an empty match is not reached.',
     [RS + '*.rs'], [('ranges built from read lengths', 'the parse function of each rule kind')], NOTE, AI)

prop('C04', 'A named node brackets the data of its rule with one start and one end',
     'A reference with a name adds exactly one start marker before, and on success exactly one end marker after, everything the referenced rule adds, '
     'both carrying the name. A reference without a name adds no markers.',
     ['inputs'], 'every reference, whatever the referenced rule does',
     'Nesting has to hold for every outcome of the referenced rule, also when it backtracks after adding data.',
     [RS + 'node.rs'], [('start and end markers', 'Node::parse')], NOTE, AI)

prop('C05', 'Parsing never disturbs data that was already in the caller\'s list',
     'Data present in the list handed to a parse keeps its place and content, whether parsing succeeds or fails. New data is only added after it.',
     ['inputs', 'histories'], 'every list length and content before the call, every syntax and text',
     'Tests start with empty lists, so truncating to a smaller count goes unnoticed.',
     [RS + '*.rs', 'src/tokenizer.rs'], [('starting count is the length of the list', 'parse_with_indent'),
                                         ('truncation to the accepted count', 'tokenizer::read_data')], NOTE, AI)

prop('C06', 'Alternatives are tried in order and the first success wins',
     'A choice between alternatives tries them in the order written, stops at the first one that succeeds and returns its outcome, and fails only after all failed. '
     'The table-driven choice tries the alternative its table gives for the first byte (and its last alternative where that is marked as the fallback), and nothing else.',
     ['inputs'], 'every number of alternatives and every pattern of success and failure, at every position including the end of the text',
     'Tests use two or three alternatives; skipping one or stopping early needs a particular pattern.',
     [RS + 'select.rs', RS + 'fast_select.rs'], [('loop over the alternatives', 'Select::parse'), ('table lookup and fallback', 'FastSelect::parse')], NOTE, AI)

prop('C07', 'A sequence succeeds exactly when all its parts do, in order',
     'A sequence applies its parts in the order written, each starting where the part before it stopped. It fails as soon as one part fails and otherwise succeeds.',
     ['inputs'], 'every number of parts and every pattern of outcomes', 'Tests use short sequences.',
     [RS + 'sequence.rs'], [('loop over the parts', 'Sequence::parse')], NOTE, AI)

prop('C08', 'Repetitions and lists stop, require and allow exactly what they say',
     'A repetition goes on until its rule fails or stops reading, needs at least one success unless it is optional, and an optional one never fails. '
     'A separated list alternates items and separators, may be empty only if optional, and accepts a trailing separator exactly when that is allowed (leaving it out of '
     'what was read is not possible). Lines are read one after the other with the same rule.',
     ['inputs'], 'every count of repetitions, every combination of the optional and trailing flags, zero-length matches included',
     'Tests try counts up to three; the combinations of flags with failures after an item or after a separator are not all covered.',
     [RS + 'repeat.rs', RS + 'separate_by.rs', RS + 'lines.rs'], [('loops', 'Repeat::parse, SeparateBy::parse, Lines::parse')], NOTE, AI)

prop('C09', 'Optional parts never fail and negated parts read and add nothing',
     'An optional part succeeds with the outcome of its rule, or with nothing read and no data if the rule fails. '
     'A negated part succeeds exactly when its rule fails, and then reads nothing and adds no data.',
     ['inputs'], 'every rule inside and every text', 'The failing inner rule may have added data before failing, which tests do not try.',
     [RS + 'optional.rs', RS + 'not.rs'], [('outcome handling', 'Optional::parse, Not::parse')], NOTE, AI)

prop('C10', 'Basic rules accept, read and record exactly what they describe',
     'Each basic rule (whitespace, fixed tag, text up to some characters, quoted text, number) accepts exactly the texts its settings describe and reads exactly the described bytes. '
     'With a name it adds one item with that name, the kind of the rule and the value read (for tags: whether the tag means true or false); without a name it adds none. '
     'A failure reports what was expected together with the debug id of the rule.',
     ['inputs'], 'every setting of the rules\' flags and every text',
     'Tests try few of the flag combinations (negated, inverted, optional, empty allowed, named or not).',
     [RS + 'whitespace.rs', RS + 'tag.rs', RS + 'text.rs', RS + 'number.rs', RS + 'until_any.rs', RS + 'until_any_or_whitespace.rs'],
     [('outcome, range and data', 'the parse function of each basic rule')],
     NOTE + ' What the read_token scanner itself accepts as number, string or whitespace is trusted.', AI)

prop('C11', 'No loop goes round for ever',
     'Every repetition in parsing, reading a syntax from data, tying up references, optimising, searching, moving through data and writing JSON comes to an end: each round reads more of the text, gets on in a list, or is the last one. '
     'This holds for every text, rules, data and settings: repeating something that reads nothing stops, and data that does not make sense is refused or passed over, never looked at again and again.',
     ['inputs'], 'every text, all rules (also ones that accept without reading), every data and settings',
     'Only texts and rules that make a loop stand still show it, and then a test hangs instead of failing; tests use rules that read something.',
     ['src/meta_rules/*.rs', 'src/bootstrap/convert.rs', 'src/tokenizer.rs', 'src/json.rs', 'src/optimize.rs', 'src/search/src/lib.rs'],
     [('repetitions', 'Repeat, SeparateBy, Lines, Select, Sequence'), ('loops over data', 'bootstrap::convert, Convert::ignore, json::write')],
     'At every loop head the values are compared with those of the last visit: the loop ends because the same measure (what is left of a text, slice or iterator, or a number with a bound) gets smaller on every way round; '
     'it does not if an exact run comes back with all values as they were, or as they were but for numbers and lists its decisions do not depend on. '
     'The loops of the converter are followed exactly for data of known shapes only. Rules that contain themselves without reading anything first recurse without end; that is left to whoever writes the syntax, and so is the depth of the stack.', AI)

prop('C12', 'The error that got furthest into the text is the one reported',
     'Of all errors met while parsing, including those of abandoned alternatives, skipped optional parts and ended repetitions, the reported one ends at least as far into the text as any other. '
     'Errors inside a negated part do not count.',
     ['inputs'], 'every nesting of rules and every pattern of failures',
     'An error dropped by one of the many merging places shows only for particular nestings.',
     [RS + 'mod.rs', RS + '*.rs'], [('merging of errors', 'err_update, ret_err, update')], NOTE, AI)

prop('C13', 'Indentation settings changed while reading lines are put back',
     'Whatever a rule does, the indentation it leaves behind is the indentation it was given, on success and on failure. Parsing starts from the settings the caller gave.',
     ['inputs'], 'every nesting of indented lines, every text and every exit', 'A missing restore on one exit shows only when later lines depend on it.',
     [RS + 'lines.rs', RS + 'mod.rs'], [('restore after each line and after the last', 'Lines::parse')], NOTE, AI)

prop('C31', 'Indented lines are read at the indentation of their block',
     'A line of an indented block is read if it begins with exactly as many columns as the block, a tab counting as the number of columns in the settings or as what is missing, with no space after them; '
     'the first other line ends the block. If the settings say so, the first line adds its own columns to those of the block. The rule of a line gets one column more than the block, so that blocks inside are deeper; '
     'lines of a block without indentation are read from their start.',
     ['inputs'], 'every indentation, tab width, setting and text; blocks and indentations up to the number of rounds each loop is followed',
     'Tests indent with a few spaces; tabs that fill only part of the indentation, a first line that sets it and blocks after a failed line are not met.',
     [RS + 'lines.rs', RS + 'indent_settings.rs'], [('indentation of one line', 'Lines::parse'), ('deeper blocks', 'indent of IndentSettings while the rule of a line is read')],
     'Exact up to the rounds each loop is followed (6, thorough 9): blank characters at the start of a line, and lines of a block; the number of columns itself is not bounded. Which line starts are tried is the reader of lines of read_token.', AI)

prop('C27', 'Equality compares every part, and a copy holds what its original holds',
     'Two rules, syntaxes, data items or errors compare equal exactly when they are of the same kind and all their parts compare equal. '
     'A copy has the kind and the parts of its original.',
     ['inputs'], 'every pair of values of each kind',
     'Tests compare few values, mostly equal in all parts but one; a part left out of a comparison or a copy is not noticed.',
     [RS + '*.rs', 'src/lib.rs', 'src/parse_error.rs'], [('derived and written comparisons and copies', 'PartialEq and Clone of each type')],
     'One comparison or copy at a time: parts of these types use the same rule for their own kind (induction on the size of the value). Floats compare as floats do.', AI)

prop('C14', 'Optimizing a syntax does not change what it accepts or the data it yields',
     'The optimized form of a rule is the same kind of rule with the same settings and optimized parts, in the same order. '
     'A choice is turned into a table-driven one only for leading alternatives that each start with a byte of their own, which the table maps to that alternative; '
     'the remaining alternatives follow as a fallback. Every rule of the syntax keeps its place and name.',
     ['inputs'], 'every syntax: any number of rules and alternatives, any nesting, every text',
     'Whether a byte really decides an alternative depends on optional parts, negations and empty tags that few grammars combine.',
     ['src/optimize.rs', 'src/lib.rs'], [('byte that a rule must start with', 'optimize::unique_byte'), ('table of bytes', 'optimize::unique_table_from_select'),
                                         ('rewriting of rules', 'optimize::optimize_rule, Syntax::optimize')],
     NOTE + ' What the table-driven choice does with its table is decided under C06.', AI)

prop('C15', 'A reference by name leads to the first rule of that name',
     'Resolving references visits every part of every rule, gives each unresolved reference the position of the first rule with its name, leaves references without such a rule unresolved '
     'and changes nothing else. Names and rules are added in pairs. While parsing, a resolved reference applies exactly that rule of the syntax, and an unresolved one fails.',
     ['inputs'], 'every syntax, every nesting of rules, repeated and missing names',
     'Tests resolve a few references at places where most grammars have them; a part that is not visited or a later rule of the same name shows only in particular grammars.',
     [RS + 'rule.rs', RS + 'mod.rs', RS + 'node.rs', 'src/lib.rs'],
     [('visiting of parts and search for the name', 'Rule::update_refs, meta_rules::update_refs'), ('rule that is applied', 'Node::parse'), ('pairs', 'Syntax::push')], NOTE, AI)

prop('C16', 'The built-in grammar is the documented grammar of the meta language',
     'The grammar used for reading syntaxes accepts the language that the published description of the meta language defines: '
     'rule by rule it has the same names, parts, settings, tags and data names, in the same order. Every reference in it leads to the rule of that name.',
     ['inputs'], 'every syntax text: the built-in grammar decides what all of them mean',
     'Tests read a few syntaxes that use a part of the language; a changed flag or a lost alternative shows only for texts that need it.',
     ['src/bootstrap/rules.rs', 'assets/self-syntax.txt'], [('grammar written out as code', 'bootstrap::rules'), ('published description', 'assets/self-syntax.txt')],
     'The builder function has no input, so the analysis computes the one value it returns; the published description is read by an independent parser. Debug ids are not compared (C18).', AI)

CONV = ('The converter is analysed on 526 forms of data generated from the documented grammar (every construct, setting and combination of two settings, repeated and missing items, '
        'nested rules) with unknown names, texts and truth values; each form stands for all its values. Longer data is covered as far as the forms are representative.')

prop('C17', 'Each item of a syntax text ends up in the setting of that name',
     'When a syntax is read, every rule gets exactly the settings, data names, texts and parts written for it: each yes/no setting in the place of its own name, '
     'its documented default where it is left out, and parts in the order written. Text that is written once and used by name stands for the same text everywhere.',
     ['inputs'], 'every construct of the meta language with every combination of settings written or left out',
     'Tests read grammars that use few of the settings and mostly with the same value; two settings swapped or one ignored is not noticed.',
     ['src/bootstrap/convert.rs'], [('one reader for each kind of rule', 'bootstrap::convert and the read functions')], CONV, AI)

prop('C18', 'Debug numbers tell the rules of a syntax apart',
     'Reading a syntax numbers its rules in the order they are finished, within a thousand of their own for each top-level rule, so that within a top-level rule no two parts have the same number. '
     'The numbers in the built-in grammar lie within the thousand of the rule they are in.',
     ['inputs'], 'every syntax, any nesting of rules',
     'Tests look at the numbers of one or two error messages.',
     ['src/bootstrap/convert.rs'], [('numbering', 'bootstrap::convert'), ('numbers written by hand', 'bootstrap::rules')], CONV, AI)

prop('C19', 'A syntax is read completely or refused',
     'Reading a syntax from its data either uses every item of the data or fails: no rule, part or setting is dropped silently. Data that the documented grammar yields is accepted, '
     'and its references are resolved after the last rule is known.',
     ['inputs'], 'every syntax text and all data handed to the converter',
     'Tests check that good syntaxes are read, not that nothing in them is skipped or that bad data is refused.',
     ['src/bootstrap/convert.rs', 'src/lib.rs'], [('reading of all rules', 'bootstrap::convert'), ('skipping of data', 'Convert::ignore')], CONV, AI)

prop('C20', 'The cursor over data reads, skips and measures whole items',
     'At every position of a list of data, the cursor for writing converters knows how many items are left, reads the next item exactly when kind and name are those asked for, and gives its value with the range of one item. '
     'Skipping covers the next item, or its whole node with everything nested in it (to the end of the data if the node is not closed). '
     'Updating moves to the end of a range, the difference of two cursors is the range of items between them, and their source reaches from the start of the first of these items to the end of the last.',
     ['inputs', 'histories'], 'every list of data, every position, every name and range',
     'No test uses the cursor directly; the built-in converter hardly skips anything.',
     ['src/bootstrap/convert.rs'], [('cursor', 'Convert')],
     'The cursor is driven through its public functions only, from a new cursor to any position. Ranges given to an update lie within the data and not before the cursor (otherwise it panics, as documented by use).', AI)

prop('C21', 'Data is written as JSON that says the same',
     'Writing data as JSON puts one item after the other in the syntax of JSON: names and texts as strings that a JSON reader decodes to the same characters, values unchanged, numbers that JSON lacks as null, '
     'braces where nodes start and end, and a comma exactly between neighbours in a node. Everything is written before the call succeeds, and it fails exactly when the writer fails.',
     ['inputs', 'faults'], 'every list of data, every text with any characters, every failure of the writer',
     'Tests write a few names of plain letters; control characters, quotes, infinite numbers, nodes next to values and failing writers are not tried.',
     ['src/json.rs'], [('items', 'json::write'), ('strings', 'json::write_string')],
     'A reader of JSON follows every piece as it is written, for unknown data of any length. How std prints a finite float is trusted. '
     'Data whose nodes do not balance is written item by item; the arithmetic of the indentation is not part of this property.', AI)

prop('C22', 'A report of an error shows where it is',
     'A report begins with the message or the text of the error, which carries the number of the rule and everything else the error holds and differs between kinds of errors; '
     'after it (and, when a token is missing, after the lines leading up to it) comes every line of the text that the place of the error touches, in order and once: its number, the column where the place starts in it, '
     'counted in characters, and the text of the line, of which a long line shows the part around the column; the first is followed by a mark right under its column. '
     'Reporting fails exactly when writing does.',
     ['inputs', 'faults'], 'every text with lines of every length and characters of every width, every place, every error, every failure of the writer',
     'Tests print a report and look at nothing; wide characters, tabs, places over more lines and failing writers are not tried.',
     ['src/parse_error_handler.rs', 'src/parse_error.rs'],
     [('lines kept', 'ParseErrorHandler::new'), ('what is written', 'ParseErrorHandler::write, write_msg'), ('text of an error', 'Display of ParseError')],
     'A reader of the report follows every piece as it is written. How the text is cut into lines and the text of errors are decided for all inputs. Violations of the layout are looked for on all paths through texts of two lines '
     'with loops followed for two rounds; for texts of one line of any length the analysis also goes to a fixed point and proves most of the rules (what it leaves open is printed). '
     'Which blank lines are passed over before a missing token is not decided, and neither is how much a long line (over 100 characters, or a column past 75) is shortened: there the analysis proves what it can and reports nothing else.', AI)

prop('C25', 'Calls depend on their arguments only and leave nothing behind',
     'What parsing, reading a syntax, converting, optimising, searching and writing data do depends on their arguments only: they read and change no files, streams, environment, clock, chance or memory that outlasts the call, '
     'except where that is what the function is for (loading files, printing, reporting to standard error). '
     'So the same call always gives the same answer, and a syntax, rules and data can be used by many threads at once.',
     ['inputs', 'histories', 'schedules'], 'every call of every public function, in every order and from any number of threads',
     'A hidden memory shows only in a second call with particular arguments, or with two threads; tests make one call each and compare with a constant.',
     ['src/**/*.rs', 'src/search/src/lib.rs'], [('all public functions', 'call graph from the public functions')],
     'What a function of std does is known by its name (files, streams, environment, clock, threads, thread-locals, random hash order); a value that is computed once, without looking at any argument, counts as a constant.',
     'effect analysis over the MIR call graph (calls, statics, thread-locals, types with interior mutability)')

prop('C26', 'No text, syntax or data makes the library panic',
     'Parsing any text with any syntax that the library put together, converting the data of a syntax, optimising, looking up data, and writing data as JSON always come back with an answer: '
     'they never index a list or cut a text out of range or inside a character, never count below zero, and never insist on a value that is not there.',
     ['inputs'], 'every text with characters of every width, every syntax and every data',
     'A panic needs a text that ends at the wrong place, a wide character at a boundary or a list that is empty; tests use short ASCII texts.',
     ['src/**/*.rs', 'src/search/src/lib.rs'], [('indexing, slicing, unsigned subtraction, unwrap and explicit panics', 'all functions reached by parsing, converting, optimising, searching and writing')],
     'Taken for granted: references of rules have been resolved and their tables come from optimising (that both do so is C14 and C12), a cursor is updated with ranges of its own data. '
     'Overflow of sums (a text of 2^64 bytes), running out of memory or stack, and functions documented to panic (loading a file that is not there, stderr_unwrap) are left out; so is the rendering of error reports. '
     'Two defects of a dependency are listed as known findings.', AI)

prop('C28', 'Short forms do what the long form does and hand on every failure',
     'Parsing without settings uses the default settings, and the forms that return a text return exactly the report of the failure on the text that was parsed. '
     'A syntax text is parsed with the built-in grammar and is refused if any part of it could not be turned into rules. '
     'Loading a file with a syntax parses the whole content of the one with the other, and whatever can not be read or parsed is reported on the text it is about and never comes back as a success.',
     ['inputs', 'faults'], 'every text, syntax, setting, outcome of parsing and failure to read a file',
     'Tests use the short forms on texts that parse; which text a failure is reported on, and what happens to the parts that were not converted, is not looked at.',
     ['src/lib.rs', 'src/json.rs'], [('short forms', 'parse, parse_errstr, parse_errstr_with_indent, syntax, syntax_errstr, load_syntax_data, stderr_unwrap, json::print')],
     'The long forms (parsing with settings, converting, writing a report, writing JSON) are named unknowns that can succeed or fail; what they do is the subject of the other properties. '
     'That a file can not be opened or read may panic without a report.', AI)

SR = 'src/search/src/lib.rs'
prop('C23', 'Reading an item back returns it, passes it, or leaves everything as it was',
     'Reading the next item of parsed data as a kind and name succeeds exactly when it is of that kind and name. It then returns the value of the item and passes exactly that item; '
     'otherwise it fails with the range of the item (or of the last item read, if no data is left) and changes nothing.',
     ['inputs', 'histories'], 'every list of data, every position in it, every name',
     'Tests read data that is there; what happens to the position after a failed read is not looked at.',
     [SR], [('readers of one item', 'Search::bool, f64, string, node, end_node')],
     'All data, names and positions are left open; the analysis has no bound. Float values compare as floats do. The wording of messages is not compared.', AI)

prop('C24', 'A search goes on right after the first item that matches',
     'Searching data for a kind, name and value looks at every item that is left, in order. The first one that matches decides: the search goes on with the items after it, '
     'remembering its range, and yields what follows from there; without a match it fails with the range remembered so far.',
     ['inputs'], 'every list of data with any number of matching items, every name and value',
     'Tests have one match per name; stopping at a later match or one item too late or early shows only with particular data.',
     [SR], [('searches', 'Search::for_string, for_f64, for_bool, for_node, for_end_node')],
     'All data, names and values are left open; the loop is analysed to a fixed point with the number of items known not to match as a ghost count.', AI)

prop('C29', 'A number read has the value that was written',
     'The value of a number in the data is the closest one to what the text says, for every way to write a number.',
     ['inputs'], 'every spelling of a number, with underscores, fractions and exponents',
     'Tests read a few short numbers.', [RS + 'number.rs'], [('value of the text read', 'Number::parse')], '', AI,
     na='The value is computed by floating point arithmetic on the digits inside the crate read_token, outside this repository; how far a sum of rounded products is from the '
        'written number is a numerical question over run-time values that no dataflow argument in reach settles. That the number read goes unchanged into the data is part of C10.')

prop('C30', 'Parsing takes time and stack in proportion to the text',
     'The time and the stack that parsing needs grow no faster than the text times a factor given by the syntax.',
     ['inputs'], 'every syntax and every text', 'Tests use short texts.', [RS + 'mod.rs'], [('recursion over the rules', 'Rule::parse')], '', AI,
     na='It does not hold: a syntax that backtracks takes exponential time and one that refers to itself without reading anything recurses for ever, by design of a recursive descent parser. '
        'What can be bounded (every loop ends) is a property of its own; the cost of a run depends on the syntax and the text at run time.')
