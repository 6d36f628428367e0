PARSER = [S + 'ArgumentIteratorImpl.cpp', S + 'ParsedArgumentsImpl.cpp', S + 'ArgumentParser.cpp']

prop('C01', 'Copies of definitions are complete and independent',
     'Copying or moving an argument, option or command definition (and everything nested in it), or copying definitions '
     'from one into another, transfers every attribute and every nested element; the copy owns its own elements. '
     'Assigning replaces the previous content, and assigning an object to itself changes nothing.',
     [CF], 'for every definition, with any combination of attributes and any nesting of commands',
     'The tests copy a handful of definitions and look at a few attributes; a forgotten member shows only when that member '
     'is set in the source.',
     [S + 'CommandData.cpp', S + 'OptionData.cpp', S + 'Argument.cpp', S + 'Option.cpp', S + 'Command.cpp'],
     [('copy and move functions of the definition records', S + 'CommandData.cpp'),
      ('copy_from of commands', S + 'CommandData.cpp')],
     tech='field-completeness dataflow over copy/move functions with container loop summaries')

prop('C02', 'Every setting stores exactly the value it is given',
     'Each setter of an argument, option, command or parser stores exactly its parameter in exactly the attribute it is '
     'named for, nothing else, and the corresponding getter returns that attribute. Nothing else in the library changes '
     'the attributes afterwards except the documented completion of missing values when parsing starts.',
     [CF], 'for every setter, every value and every order of calls',
     'Tests set one or two attributes per definition; a setter that also disturbs another attribute, or that is overwritten '
     'later, needs a particular combination of settings.',
     [S + 'Argument.cpp', S + 'Option.cpp', S + 'Command.cpp', S + 'ArgumentParser.cpp'],
     [('setters and getters', S + 'Option.cpp')],
     tech='write-set and value-provenance analysis of setters, getters and all writers of the attributes')

prop('C03', 'The process exits only when automatic exit allows it, with the right code',
     'With automatic exit off, no library function terminates the process. With it on, an error detected while parsing, or '
     'reported through the public error functions, writes its message and then exits with the error exit code, and taking a '
     'HELP or EXIT option exits with the normal exit code after its effects; nothing else exits.',
     [IN, CF], 'for every definition, every command line and every value of the exit settings',
     'A test cannot observe all the paths that might exit, and exiting kills the test itself; the tests run with automatic '
     'exit off.',
     PARSER, [('exit at the end of the error and the option processing', S + 'ArgumentIteratorImpl.cpp')],
     tech=STEP + '; call-graph reachability of terminating calls')

prop('C04', 'An error stops the parse and marks everything that was parsed',
     'When parsing detects an error (automatic exit off) it writes exactly one error message for the current command, marks '
     'every active result as FAILURE, keeps the arguments not yet processed, and parsing further throws. When it '
     'detects no error it does none of this, and parsing after the end has no effect.',
     [IN, HI], 'for every definition and command line, at every point of the parse',
     'The error sites are many, and the tests look at one result for each of a few of them.',
     PARSER, [('error reporting', S + 'ArgumentIteratorImpl.cpp'), ('error state', S + 'ArgumentIteratorImpl.cpp')],
     tech=STEP)

prop('C05', 'Success is only reported when everything required was given',
     'A result has the code SUCCESS, or the end of the command line is reached without error, only if every mandatory option '
     'of every active command has a value, the current command does not still require a subcommand, and its arguments are '
     'complete. When all of these hold, the exhausted command line gives SUCCESS for every active result.',
     [IN, CF], 'for every definition and command line',
     'Tests cover a few definitions; a missing check shows only for the right combination of command nesting, option order '
     'and stop kind.',
     PARSER, [('checks before success', S + 'ArgumentIteratorImpl.cpp')], tech=STEP)

prop('C06', 'An option has exactly the effects of its type',
     'NORMAL options let the parse go on; HELP, STOP and EXIT options stop it with the code STOP, remembering the option and '
     'keeping the remaining arguments, and only HELP writes the help text; LAST_OPTION makes everything after it an argument; '
     'LAST_ARGUMENT requires that everything mandatory is present and then ends the command successfully with the remaining '
     'arguments kept.',
     [IN, CF], 'for every option and every command line',
     'Each type is tested on one or two command lines with one active command.',
     PARSER, [('option processing', S + 'ArgumentIteratorImpl.cpp')], tech=STEP)

prop('C07', 'An option stores exactly what its operation says',
     'ASSIGN leaves exactly the new value, APPEND adds one, CLEAR removes all values and NONE stores nothing, each under the '
     "option's own name; an option with a constant stores that constant and consumes no value, one without consumes exactly "
     'one value. When the value is missing it is an error and nothing is stored.',
     [IN, HI], 'for every option, every value and every history of earlier values',
     'The tests look at one or two occurrences of one option; replacing several earlier values, or an option next to another '
     'one with neighbouring ids, needs a longer history.',
     PARSER, [('operations', S + 'ArgumentIteratorImpl.cpp'), ('value store', S + 'ParsedArgumentsImpl.cpp')],
     tech=STEP + '; abstract multimap for the value store')

prop('C08', 'Callbacks run exactly once each, in order, at the right time',
     'For each option or argument taken, its own callback and then the one of the parser run exactly once, if they are set, '
     'after its value is stored and before its type takes effect. Arguments a callback adds are parsed next, '
     'and no callback runs for anything else.',
     [IN, CF, HI], 'for every definition with callbacks, and every command line',
     'Tests count callbacks for a single configuration.',
     PARSER, [('callback calls', S + 'ArgumentIteratorImpl.cpp')], tech=STEP)

prop('C09', 'Unknown options and surplus arguments are kept or rejected, never lost',
     'An unknown option or surplus argument is either reported as an error or, if the parser is told to ignore it, kept '
     'verbatim in the unprocessed arguments of the innermost result. Each setting governs only its own kind.',
     [IN, CF], 'for every command line and every combination of the two settings',
     'The tests try a few lines, mostly with one of the settings.',
     PARSER, [('handling of unknown options and arguments', S + 'ArgumentIteratorImpl.cpp')], tech=STEP)

prop('C10', 'Numeric conversion consumes the whole text or fails',
     'Converting a value to a number succeeds only if the complete text was consumed and the result is in range, and '
     'otherwise gives no value; it never throws and never gives a default or truncated number.',
     [IN], 'for every text and every numeric type', 'Tests sample texts.',
     [S + 'ParseValue.cpp'], [('conversion of numbers', S + 'ParseValue.cpp')],
     tech='value-provenance and guard analysis of the conversion functions')

prop('C11', 'Typed access to a value gives the converted value, the default, or an error',
     'Reading a value as some type gives the default exactly when there is no value, the conversion of the whole value when that '
     'succeeds, and otherwise reports an error under the option or argument it belongs to; reading several does so for each of them, in order. '
     'Splitting gives the parts of each value in order and reports an error when there are fewer than asked for; an index '
     'beyond the values is an error.',
     [IN], 'for every value, type, default and bounds', 'Tests read a few values of each type.',
     [S + 'ArgumentValue.cpp', S + 'ArgumentValues.cpp', S + 'ParsedArguments.cpp'],
     [('typed accessors', S + 'ArgumentValue.cpp')],
     tech='path-sensitive provenance analysis of accessors')

prop('C12', 'Using an empty object throws instead of crashing',
     'Every public function of an object whose content has been moved away or handed over throws the documented exception '
     'before touching anything, instead of dereferencing a null pointer.',
     [HI], 'for every public function and every history that leaves the object empty',
     'Tests do not call every function on a moved-from object, and a null dereference is undefined behaviour.',
     [S + 'ArgumentParser.cpp', S + 'Option.cpp', S + 'Command.cpp', S + 'Argument.cpp', S + 'ArgumentIterator.cpp'],
     [('checks of the implementation pointer', S + 'ArgumentParser.cpp')],
     tech='interprocedural null-state analysis of every public member function')

prop('C13', 'Case-insensitivity is applied to every comparison of names, or to none',
     'Wherever option flags or command names are compared, sorted or looked up, the case-insensitivity setting of the parser '
     'decides how; with the setting off comparisons are exact and with it on both sides are treated alike.',
     [IN, CF], 'for every set of names, both values of the setting',
     'Tests use a few names.',
     [S + 'CommandData.cpp', S + 'StringUtilities.cpp', S + 'ArgumentIteratorImpl.cpp'],
     [('comparisons with a case flag', S + 'StringUtilities.cpp')],
     tech='flag-provenance dataflow from the setting to every comparison')

prop('C14', 'Every definition is validated and numbered before parsing',
     'Before the first argument is parsed every option of every command at every level has been validated, every option and '
     'argument has been given a value id that it shares exactly with those linked to it through names and aliases, and every option '
     'is entered under all its flags in the index used for look-up; an option that breaks a documented rule, and a command that '
     'requires a subcommand but has none, make parsing throw.',
     [CF], 'for every definition, any nesting', 'Tests validate single small definitions.',
     [S + 'CommandData.cpp', S + 'ParserData.cpp', S + 'OptionData.cpp'],
     [('preparation of the definitions', S + 'CommandData.cpp')],
     tech='path-sensitive constant propagation over the control flow graph, validation tables and scenario trees of commands')

prop('C15', 'Hidden things stay hidden',
     'Options, arguments and commands whose visibility excludes the help text do not appear in its lists, those whose '
     'visibility excludes the usage do not appear in the usage line, and everything else appears in both.',
     [CF], 'for every definition and visibility', 'Tests render a few definitions.',
     [S + 'HelpText.cpp'], [('help generation', S + 'HelpText.cpp')],
     tech='path-sensitive guard analysis of the help generator')

prop('C16', 'Custom texts replace the generated ones',
     'Each help text section uses the custom text and title that is set for it, and only falls back on the generated one when '
     'none is set; sections are written in the documented order.',
     [CF], 'for every combination of custom texts', 'There are 2^n combinations; tests try a few.',
     [S + 'HelpText.cpp'], [('help generation', S + 'HelpText.cpp')],
     tech='path-sensitive provenance analysis of the help generator')

prop('C17', 'All output goes to the stream the parser was given',
     "Help, usage and error messages are written only through the parser's stream, or standard output/error as documented "
     'when none is set; no other output is produced.',
     [IN, CF], 'for every message', 'Output on another stream is invisible to a test that inspects the given one.',
     [S + 'TextWriter.cpp', S + 'ParserData.cpp', S + 'ArgumentParser.cpp'],
     [('stream selection', S + 'TextWriter.cpp')],
     tech='effect analysis: who touches which stream')

prop('C18', 'Errors in definitions and use are reported as ArgosException',
     'The only exceptions the library itself throws are ArgosException objects; failures inside its own number conversion '
     'and container access do not escape as other exceptions.',
     [IN, CF, HI], 'for every misuse', 'Tests provoke only some errors.',
     [S + 'ArgosThrow.hpp'], [('throw macro', S + 'ArgosThrow.hpp')],
     tech='exception effect analysis over the call graph')

prop('C19', 'The argument cursor never outlives or forgets its arguments',
     'Arguments that are inserted while parsing are read before the ones that were waiting, which follow in order and once; flags that '
     'are left of a concatenated argument come between them. A copied cursor goes on from the same place independently, and a cursor '
     'never uses a view into a list of arguments that has moved or is not its own, or a position outside of it.',
     [IN, HI], 'for every sequence of reading, inserting and copying', 'Tests insert once or twice.',
     [S + 'OptionIterator.cpp', S + 'StandardOptionIterator.cpp'],
     [('re-anchoring of the argument list', S + 'OptionIterator.cpp')],
     tech='path-sensitive interpretation over symbolic characters with generations of containers and views')

prop('C20', 'Parsing does not consume or change the parser it is called on',
     'A const parser is not changed by parsing, asking for help or iterating, or any other const function: each works on a complete '
     'copy of its definitions and settings, so it can be used again and gives the same result; the library keeps no mutable '
     'global state.',
     [HI], 'for every sequence of calls', 'Tests parse once per parser.',
     [S + 'ArgumentParser.cpp', S + 'ArgumentIterator.cpp'], [('make_copy before parsing', S + 'ArgumentParser.cpp')],
     tech='effect analysis of const entry points')

prop('C21', 'Look-ahead counting treats every token as processing does',
     'The number of arguments still to come, which decides how values are spread over arguments, is counted with the same '
     'rules that are used when the tokens are processed: unknown options and values of options do not count, options that end the '
     'options or the arguments do so, and a name that starts a subcommand or a sibling command ends the count. It is counted anew when a '
     'command starts and when a callback inserts arguments, without moving the cursor.',
     [IN, CF], 'for every definition and command line', 'Tests count a few lines.',
     [S + 'ArgumentIteratorImpl.cpp'], [('look-ahead count', S + 'ArgumentIteratorImpl.cpp')],
     tech='path-sensitive constant propagation through the counting loop over enumerated sequences of token classes')

prop('C22', 'Values are spread over arguments as their counts allow',
     'If there are enough values, each argument gets at least its minimum and at most its maximum number of them, in the order they are given; what '
     'is more than all the minimums goes to the earlier arguments first, and values beyond all the maximums go to none. '
     'The arguments are reported to be complete exactly when each has its minimum and every value that was counted in advance is given.',
     [IN, CF], 'for every list of arguments, their counts and number of values', 'Tests try a few lists of arguments.',
     [S + 'ArgumentCounter.cpp'], [('distribution of values', S + 'ArgumentCounter.cpp')],
     tech='constant propagation through the argument counter over enumerated lists of counts')

prop('C23', 'Definitions and results are owned once and live as long as what refers to them',
     'Every definition has exactly one owner, nothing is deleted by hand, and a function that gives a definition away no longer holds it. '
     'Results, values, value lists, builders and iterators share the ownership of the result and definitions they refer to, so that they '
     'stay usable after the parser, the iterator and other results are gone; no cycle of owners keeps anything alive for ever, and '
     'nothing returned or stored refers to texts or objects that no longer exist.',
     [HI], 'for every order of use and destruction', 'Tests keep everything alive to the end and run without leak checking.',
     [S + 'CommandData.hpp', S + 'ParserData.hpp', S + 'ParsedArgumentsImpl.hpp', 'include/Argos/ArgumentValue.hpp'],
     [('owning members', S + 'CommandData.hpp'), ('shared ownership of results', S + 'ParsedArgumentsImpl.hpp')],
     tech='ownership and borrowing analysis over the types of all fields, all owner construction sites and closures')

prop('C24', 'A finished subcommand hands over to the right parent',
     'When a command allows several subcommands, the name of another one after a complete subcommand without subcommands of its own starts it under '
     'the innermost such parent, with a fresh result and a fresh argument count; the results of the finished ones stay in the '
     "parent's result.",
     [IN, CF], 'for every nesting of commands and every command line', 'Tests use two levels.',
     PARSER, [('reactivation of a parent command', S + 'ArgumentIteratorImpl.cpp')], tech=STEP)

prop('C25', 'A result answers alike by name and by definition, and shows exactly what was parsed',
     'Asking a result, or the builder that callbacks get, whether it has a value, for its value or its values, changing them, and '
     'reporting an error does the same by name as by definition, on exactly the values under that name. The command, code, special '
     'option, unprocessed arguments, subcommands and definitions a result shows are those of the parse, complete and in order, and '
     'filtering the arguments of main leaves the program name and the unprocessed arguments.',
     [IN, HI], 'for every result, name and definition, and every command line', 'Tests use one form of each function on a few results.',
     [S + 'ParsedArguments.cpp', S + 'ParsedArgumentsBuilder.cpp', S + 'ParsedArgumentsImpl.cpp'],
     [('results', S + 'ParsedArguments.cpp'), ('builder', S + 'ParsedArgumentsBuilder.cpp')],
     tech='path-sensitive provenance analysis of each accessor; enumeration of small lists')

prop('C27', 'The incremental and the complete parse agree',
     'Iterating over a command line and parsing it in one call process the same steps of the same prepared definitions and arguments: '
     'parse runs until the end or an error is reported and returns the result for the whole command line, which the iterator also '
     'gives; the iterator reports each step with its kind, definition and text, and false at the end or an error.',
     [IN], 'for every command line', 'Tests compare few lines.',
     [S + 'ArgumentIterator.cpp', S + 'ArgumentParser.cpp'], [('parse loop', S + 'ArgumentParser.cpp')],
     tech='typestate of the parse loop; exhaustive mapping check of the iterator')

prop('C28', 'Reading a value never mixes values of different names',
     'Reading a single value gives it only if there is exactly one under that name and throws if there are several; reading '
     'several gives exactly those stored under the name, in order; testing presence is true exactly when there is at least one.',
     [IN, HI], 'for every history of stored values', 'Tests store a few values.',
     [S + 'ParsedArgumentsImpl.cpp'], [('value look-up', S + 'ParsedArgumentsImpl.cpp')],
     tech='abstract multimap analysis of the readers')

prop('C29', 'Indentation is balanced around every help section',
     'Whatever is written, every indentation or line setting pushed for a section is popped before the next one, so one '
     'section never affects the layout of another.',
     [CF], 'for every definition and custom text', 'A leak shows only for the right next section.',
     [S + 'HelpText.cpp', S + 'TextFormatter.cpp'], [('push and pop of indentation', S + 'HelpText.cpp')],
     tech='push/pop balance typestate on all paths')

prop('C30', 'Every command that becomes active starts with its initial values',
     'Whenever a command becomes active its result holds the initial value of each of its options that has one, its '
     'arguments are counted afresh, and it is registered in the result of its parent.',
     [IN, CF], 'for every nesting of commands', 'Tests set an initial value on one level.',
     PARSER, [('creation of results', S + 'ParsedArgumentsImpl.cpp'), ('activation of commands', S + 'ArgumentIteratorImpl.cpp')],
     tech=STEP)

prop('C31', 'Option look-up finds exact matches first and only unambiguous abbreviations',
     'Preparing a command puts every flag of every option in the look-up and rejects two flags that are equal under the case '
     'setting. An option is found by its exact flag (under the case setting); otherwise, if abbreviations are allowed, by a text '
     'that is a prefix of exactly one flag; otherwise, if the text ends in "=", by what precedes it, provided the option takes an '
     'argument; any other text finds none. The parser always looks options up with its own abbreviation and case settings.',
     [IN, CF], 'for every set of flags and every text', 'Tests look up a few flags.',
     [S + 'CommandData.cpp'], [('option look-up', S + 'CommandData.cpp')],
     tech='exhaustive abstract path table of the look-up function')

prop('C33', 'Automatic help and version options are added exactly when they should be',
     'Before parsing, every command gets a help option if the setting asks for it, it has no option of type HELP, and a flag of '
     'the option style is unused (-h and --help, whichever are unused; /?; -h, or else -help); the top level gets a version option '
     'of type STOP if a version text is set and --version, /VERSION or -version is unused; otherwise none is added. A flag is used '
     'if any option of the command has it under the case setting. The generated options have the current section and an otherwise '
     "default definition, and the version option writes the program name and version to the parser's stream.",
     [CF], 'for every definition and setting', 'Tests check default flags.',
     [S + 'ParserData.cpp', S + 'CommandData.cpp'], [('generated options', S + 'ParserData.cpp')],
     tech='path-sensitive guard and effect analysis')

prop('C34', 'Adding definitions appends them and rejects what is not allowed',
     'Adding an argument, option or command appends exactly that definition at the end of the right list under the current '
     'section; adding something forbidden throws and leaves the list unchanged.',
     [CF, HI], 'for every sequence of additions', 'Tests add in a few orders.',
     [S + 'CommandData.cpp', S + 'Command.cpp', S + 'ArgumentParser.cpp'], [('add functions', S + 'Command.cpp')],
     tech='effect analysis of the add functions')

prop('C36', 'Tokens are split as the option style says',
     'In standard style "-abc" is read as -a, -b and -c, or, when -a takes a value, as -a with the value "bc"; "--name=value" as the flag '
     '"--name=" and its value; everything else as a whole. In dash and slash style only "=" separates a flag and its value. A value that '
     'is not attached is the next token, whatever it looks like. A text counts as an option exactly if it has two or more characters and '
     'starts with the character of the style. Every token is read once and in order.',
     [IN, CF], 'for every token, style and order of reading flags and values', 'Tests split a few tokens.',
     [S + 'StandardOptionIterator.cpp', S + 'OptionIterator.cpp', S + 'OptionIteratorWrapper.hpp', S + 'ArgumentIteratorImpl.cpp'],
     [('tokenising', S + 'StandardOptionIterator.cpp'), ('choice of the style', S + 'ArgumentIteratorImpl.cpp')],
     tech='path-sensitive interpretation over symbolic characters compared with a reference of the styles')

prop('C37', 'Usage, lists and error messages show every definition as it was defined',
     'The generated usage shows each visible argument as often as it must be given, with brackets and ... for what is optional, each '
     'visible option by a flag and its argument name, in brackets iff it is optional, options that end the parse on lines of their own, '
     'and the subcommands, in brackets iff none is required. The lists show all flags and argument names, each with its own help text, in the order '
     'of definition. An error about a definition begins with its name or flags.',
     [HI], 'for every set of definitions', 'Tests compare a few complete help texts.',
     [S + 'HelpText.cpp'], [('generated help', S + 'HelpText.cpp')],
     tech='abstract interpretation of the help generator on enumerated definitions (constant propagation)')

prop('C38', 'Text is written completely, in order and within the line width',
     'Every word of a help text, usage line or message that goes through the text formatter is written exactly once and in order; white space '
     'between words stays white space, line breaks stay line breaks, and further ones are only added where the next word does not fit. '
     'No line is longer than the line width unless the indentation leaves no room for more than two columns; a word is only broken if it does not fit '
     'into a line of its own. Nothing is left behind when the formatter is flushed.',
     [IN, CF], 'for every text, width and indentation', 'Tests compare a few texts at a few widths.',
     [S + 'TextFormatter.cpp', S + 'TextWriter.cpp', S + 'WordSplitter.cpp'], [('formatter', S + 'TextFormatter.cpp'), ('wrapping', S + 'TextWriter.cpp'), ('breaking of words', S + 'WordSplitter.cpp')],
     tech='path-sensitive abstract interpretation over texts of symbolic characters')
prop('N04', 'The single-file version behaves like the separate sources',
     'A program built with the single-file version behaves as one built with the separate sources.',
     ['programs', IN], 'for every program', 'The tests build the separate sources only.',
     ['single_src/Argos/Argos.cpp'], [('generated file', 'single_src/Argos/Argos.cpp')],
     na='behavioural equivalence of two programs is not decided statically; instead every check analyses both versions')
