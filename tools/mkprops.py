import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['include/sharg/'+f for f in files],mechanism=[dict(name=n,where='include/sharg/'+w) for n,w in mech],observe_at=obs)))
FP='detail/format_parse.hpp';PA='parser.hpp';VA='validators.hpp';FB='detail/format_base.hpp';FH='detail/format_help.hpp';HT='detail/format_html.hpp';MA='detail/format_man.hpp';VC='detail/version_check.hpp';SF='detail/safe_filesystem_entry.hpp'
prop('C01','A command line means what reading it from left to right says',
"After a successful parse() every variable holds what reading the arguments once from left to right gives: a declared option identifier takes the next argument verbatim (whatever it looks like) or the text attached to it (`-ovalue`, `-o=value`, `--opt=value`), a group of short flags sets each of its flags, `--flag` sets its flag, and every other argument (also an empty one and a single `-`) fills the positional options in order. All notations of the same value give the same result for every value, flags and options may be mixed freely with positional arguments, and it makes no difference whether the parser was constructed from argc/argv or from a vector.",
['inputs','configurations'],'every argument list over an alphabet of identifiers, notations, values that look like identifiers, empty strings and dashes, up to a bounded length, for several parser configurations',
'The tests run a few dozen hand-written argument lists; the matching works on a mutable list of arguments that several passes erase from, so its errors only show for particular orders and neighbours of arguments.',
[PA,FP],[('splitting off option values and special requests',PA+': determine_format_and_subcommand'),('option and flag retrieval',FP+': find_option_id, identify_and_retrieve_option_value, flag_is_set, get_positional_option')],
['values of the variables passed to add_option/add_flag/add_positional_option after parse()'])
prop('C02','The order in which options and flags are added does not matter',
"For every command line, whether it is accepted and all resulting values and is_option_set() answers are the same for every order in which the options and flags of a parser are added. Identifiers that are prefixes of one another, share characters, or equal each other's values are never confused.",
['inputs','configurations'],'every permutation of the declarations, crossed with every argument list over the alphabet up to a bounded length',
'Every test adds its options in one order; the implementation processes all options, then all flags, each in declaration order.',
[PA,FP],[('per-declaration retrieval',FP+': get_option, get_flag'),('used identifiers',PA+': options, used_ids')],['values and exceptions of parse()','is_option_set()'])
prop('C03','Everything behind `--` is positional',
"The first `--` that is not itself the value of an option ends the options: every later argument is a positional argument, taken verbatim and in order, whatever it looks like (option or flag identifiers, flag groups, `--help`, `--version-check`, a second `--`, an empty argument). Arguments in front of it keep their meaning, and is_option_set() ignores everything behind it.",
['inputs'],'every argument list with `--` at every position over an alphabet of identifiers, special requests and values',
'The tests have a handful of lines with `--`; each processing step (special requests, options, flags, unknown identifiers, is_option_set) has to respect the marker separately.',
[PA,FP],[('end of options',PA+': option_end_identifier, end_of_options'),('end of options while parsing',FP+': end_of_options_it')],['values and exceptions of parse()','is_option_set()'])
prop('C04','Every argument is accounted for, and misuse raises the documented error',
"parse() returns normally only if every argument was used by exactly one declared option, flag, positional option or special request and everything required was given. Otherwise it throws a sharg::parser_error of the class that is documented for the mistake: unknown_option for undeclared identifiers, too_few_arguments for a missing option value or positional argument, too_many_arguments for left-over ones, option_declared_multiple_times, required_option_missing, user_input_error for values that are not of the type, and validation_error for rejected values; nothing but the documented exceptions leaves parse().",
['inputs','configurations'],'every argument list up to a bounded length over alphabets with all kinds of mistakes, for configurations with required options, validators, several positional options and none at all',
'The tests have one or two lines per kind of error; whether something is silently dropped depends on combinations and positions of arguments.',
[PA,FP,'exceptions.hpp'],[('unknown identifiers and left-over arguments',FP+': check_for_unknown_ids, check_for_left_over_args'),('errors while retrieving values',FP+': get_option, get_positional_option, throw_on_input_error')],['exception type of parse()'])
prop('C05','List options collect exactly the given values; defaults survive or are replaced',
"A list option or positional list holds exactly the values given on the command line, all of them, in command line order, however short and long identifiers and notations are mixed and whatever other arguments stand in between. A default value stays untouched if the option is not given, and is replaced (for lists: not appended to) if it is.",
['inputs','configurations'],'every argument list up to a bounded length that mixes occurrences of several list options, positional lists and single options, with empty and non-empty defaults and several container types',
'The tests use two or three occurrences of one option in one notation.',
[FP],[('list retrieval',FP+': get_option_by_ids, get_positional_option, parse_option_value (container)')],['values of the variables after parse()'])
prop('C06','Value conversion is exact or an error',
"A text is accepted for an arithmetic option exactly if it is in full a decimal number in the range of the type (floating point types may also accept inf and nan), and then gives that number; bool accepts exactly 0, 1, true and false; strings and paths are taken verbatim; types with an own operator>> must consume the whole text. Every other text raises user_input_error; a value is never truncated, wrapped, rounded to another value or partly read.",
['inputs'],'every text up to a bounded length over the characters that matter for number syntax, all values in and around the limits of every integer type, and a catalogue of floating point texts, in every notation and as scalar, list element and positional value',
'The tests use a few numbers per type and do not reach the limits of most types.',
[FP,'std/charconv','concept.hpp'],[('conversion',FP+': parse_option_value overloads, throw_on_input_error')],['value or exception of parse()'])
prop('C07','Validators decide as documented and on the final value',
"arithmetic_range_validator accepts exactly the values in the closed interval, value_list_validator exactly the listed values, regex_validator exactly the full matches; `a | b` accepts exactly what both accept, for any nesting; on lists each element is checked. The validator of an option is applied exactly if the option is given (or is positional), once, to its final value, and any exception it throws is reported as validation_error.",
['inputs','configurations'],'every value of a small domain around the limits, every pair/triple of validators in every nesting, every short text against regular expressions with independently written automata, scalar and list options, option given or not',
'The tests try a few accepted and rejected values for each validator.',
[VA,FP],[('validators',VA+': arithmetic_range_validator, value_list_validator, regex_validator, validator_chain_adaptor'),('application of validators',FP+': get_option, get_positional_option')],['exception of parse() and of calling a validator'])
prop('C08','File validators decide by existence, kind, permission and extension',
"input_file_validator accepts exactly readable regular files with an allowed extension; output_file_validator accepts exactly writable file names with an allowed extension that (create_new) do not exist yet or (open_or_create) may exist; input_directory_validator exactly readable directories; output_directory_validator exactly existing writable directories and directories that can be created. An extension is matched as a whole, case-insensitively, including multi-part extensions such as `.fa.gz`; an empty list allows every name; everything else is a validation_error.",
['inputs','configurations'],'every combination of file system state (missing, file, empty file, directory, symbolic links to each, unreadable, unwritable, missing or unwritable parent), path spelling, extension list and open mode, checked as an unprivileged user',
'The tests cover the common states and skip the permission cases when run as root.',
[VA,SF],[('file validators',VA+': file_validator_base and derived validators')],['exception of the validator'])
prop('C09','Validating a path leaves the file system as it was',
"Checking a path with a file or directory validator, whatever the verdict, creates nothing that stays, and deletes or modifies nothing that existed: existing files keep their content and directories their entries.",
['inputs','configurations','histories'],'as C08, and sequences of two validations, comparing a full snapshot of the scratch tree before and after',
'Write access is tested by creating and deleting files, so a wrong order of checks destroys data only for particular states of the file system that the tests do not set up.',
[VA,SF],[('write test',VA+': try_writing_file, output_file_validator, output_directory_validator'),('removal of temporaries',SF+': safe_filesystem_entry')],['file system tree before and after'])
prop('C10','Special requests print their page, change nothing and exit successfully',
"If the arguments contain (in front of `--` and not as the value of an option) -h/--help, -hh/--advanced-help, --version, --copyright or --export-help html|man, in any notation, parse() prints the requested page and exits with code 0, whatever other arguments are there; no variable is modified and nothing else is printed. The page does not depend on the other arguments, of several requests the last one counts; calling without any arguments prints the short help; unknown formats for --export-help and values for --version-check raise validation_error, missing ones too_few_arguments.",
['inputs','configurations'],'every argument list up to a bounded length over special requests, identifiers, values and erroneous arguments, for parsers with and without subcommands',
'The tests pass each special request alone.',
[PA,FB],[('format selection',PA+': determine_format_and_subcommand, parse')],['standard output, exit code and variables'])
prop('C11','Subcommands split the command line at the first subcommand name',
"The arguments up to the first one that names a subcommand (and is not the value of an option) belong to the top-level parser, all following ones, unchanged, to the sub-parser `app-subcommand`; get_sub_parser() returns it exactly if a subcommand was given. Any other non-option argument before the subcommand is a user_input_error that lists the subcommands, and special requests concern the parser in whose part they stand.",
['inputs','configurations'],'every argument list up to a bounded length over options, flags, subcommand names, prefixes of them, values equal to subcommand names and special requests, including nested subcommands',
'The tests use single lines per behaviour; values that equal subcommand names and special requests on both sides depend on the exact split.',
[PA],[('subcommand detection',PA+': determine_format_and_subcommand (found_subcommand), get_sub_parser')],['values of both parsers, exceptions, pages'])
prop('C12','Misconfigured parsers are rejected with design_error when they are set up',
"Every add_* call with an invalid or already used identifier, a contradicting configuration (required option with default message, flag with default true or default message, positional option with identifiers, hidden/advanced/default message, behind a list, or together with subcommands), any set-up call after parse(), a second parse() and a query before parse() throws design_error; every valid set-up is accepted. parse() rejects invalid application and subcommand names with design_error, and a rejected call never corrupts later valid ones.",
['programs','configurations'],'every sequence of API calls up to a bounded length over an alphabet of valid and invalid calls; every identifier text over an alphabet of characters up to length 3 and every single character',
'The tests check each rule once on a fresh parser.',
[PA],[('verification of calls',PA+': verify_identifiers, verify_*_config, check_parse_not_called, verify_app_and_subcommand_names')],['exceptions of the API calls'])
prop('C13','is_option_set tells exactly which identifiers were used',
"After parse(), is_option_set(id) is true exactly if that identifier of an option was used on the command line as an option, in any notation, in front of `--`; values that look like the identifier, flags, positional arguments and longer identifiers with the same prefix do not count. Asking before parse(), for a one-character string or for anything that is not an option of the parser is a design_error.",
['inputs','configurations'],'every argument list up to a bounded length, querying every identifier after each parse',
'The tests query a handful of lines.',
[PA],[('query',PA+': is_option_set')],['return value of is_option_set()'])
prop('C14','Help and exported pages show exactly what was declared',
"The help page lists every option, flag and positional option that is not hidden (and not advanced, unless the advanced help or an export is requested) in declaration order with its identifiers, type, description, default value or default message, and validator description; sections, subsections, lines and list items appear in call order under the same visibility rule; subcommands, synopsis, examples, version, author, copyright and citation information appear exactly if they are set. Hidden entries never appear, and plain text, HTML and man page carry the same entries.",
['programs','configurations'],'every sequence of declarations up to a bounded length over entries with all combinations of hidden/advanced/required/default/type/validator, every subset of the meta data, for each output format',
'The tests compare a few complete pages literally.',
[FB,FH,HT,MA,PA],[('page generation',FB+': format_help_base'),('formats',FH+', detail/format_html.hpp, detail/format_man.hpp')],['standard output of --help, --advanced-help, --export-help'])
prop('C15','Any text is rendered safely and completely in all formats',
"For every description, section title, list item, synopsis or meta data text, rendering terminates without crashing, keeps every visible character of the text in order, and resolves the markup \\fB, \\fI, \\fP. HTML output is well-formed (all tags balanced, all special characters of the text escaped), man output has no text line that is interpreted as a request, and the plain text page wraps within the terminal width (less a margin of two columns) without losing or splitting words.",
['inputs'],'every text up to a bounded length over letters, blanks, backslashes, markup characters, quotes, dots and the HTML special characters, in every position of the page and for several terminal widths',
'The tests only render harmless texts; the scanners for markup look ahead in the text and break at its end.',
[FH,HT,MA,FB],[('text conversion',FH+': to_text, print_text; '+HT+': to_html; '+MA+': print_*')],['standard output of the pages'])
prop('C16','When an update check is performed',
"A check is performed only if the developer left it on, SHARG_NO_VERSION_CHECK is not set, the user did not decline on the command line, in the remembered decision or when asked, and at most once per day and application; --version-check 1/0 applies to this call, takes precedence over the remembered decision and never asks. The user is asked only if standard input and error are terminals and no decision is known, the answers always and never are remembered (after other answers, and if nobody can be asked, the question is put off for a day and no check performed unless the answer is yes), a broken or unreadable record of an earlier check counts as none.",
['histories','configurations'],'every reachable state of the cookie files under sequences of runs with all combinations of developer switch, environment variable, command line decision, terminal, answer and elapsed time',
'The tests check single runs from prepared cookie files.',
[VC,PA],[('decision',VC+': decide_if_check_is_performed'),('record',VC+': write_cookie, get_time_diff_to_current')],['server request, cookie files, prompts'])
prop('C17','The update request and its notices say the right thing',
"The request goes to the SeqAn server with the application name and its version (0.0.0 if it is no version), only through a download program that is available, stores the answer in the configuration directory and cannot be influenced by application name, version or paths to run anything else. The notices are exactly: a newer application version and where to get it (release builds); a newer sharg version, an unregistered application, an own version above the registered one (debug builds); none if the versions are equal or older, and an empty, incomplete or malformed record says nothing.",
['inputs','configurations'],'every content of the version record over well- and malformed version strings, own versions below/equal/above, availability of each download program, debug and release build',
'The tests cover one record per message and never look at the command.',
[VC],[('request',VC+': call_server, get_program'),('notices',VC+': operator()')],['argument of std::system, standard error, version record'])
prop('C18','The update check never disturbs the application',
"Whatever the environment (missing or unwritable home, no temporary directory, no download program, failing or hanging request, no thread available), parse() gives the same values, exceptions, pages and exit codes as without update check, throws nothing on its own account, touches no file outside its configuration directory and the parser's destructor waits at most about three seconds.",
['fault_sequences','schedules'],'every single and pair of environment faults, each order of the completion of the request relative to parse() and the destructor',
'The tests run in one healthy environment and cannot control the thread.',
[VC,PA],[('set-up of the check',PA+': run_version_check, ~parser'),('cookie path',VC+': get_path')],['values and exceptions of parse(), file system, duration'])
prop('C19','A moved parser behaves like the original',
"At every point of a parser's life (before, between and after its declarations and after parse()) moving it, by construction or assignment, gives a parser that behaves like the unmoved one would: same values, errors, pages, is_option_set() answers and sub-parsers. No memory error occurs.",
['programs','histories'],'every position and kind of one or two moves within every sequence of declarations of bounded length, for every kind of command line, under AddressSanitizer',
'The tests move a parser once with one option.',
[PA],[('deferred declarations',PA+': operations, add_option, add_flag, add_positional_option')],['behaviour of the moved parser'])
prop('C20','Named enumerations round-trip',
"For a named enumeration, exactly the declared names are accepted as values, each giving its enumerator, and printing an enumerator gives a name that parses back to it; other texts raise user_input_error listing all names in a deterministic order, and enumerators without name print as such. value_list_validator over the enumeration accepts exactly the listed values, and the help page shows names, not numbers.",
['inputs','configurations'],'all names, every text up to a bounded length over the characters of the names (so all prefixes, extensions, case variants), all subsets of enumerators, both kinds of customisation, aliases included',
'The tests parse two or three names.',
['enumeration_names.hpp',FP,VA],[('names',"enumeration_names.hpp: enumeration_names, operator<<"),('conversion',FP+': parse_option_value (named_enumeration)')],['values, messages, printed names'])
prop('C21','Error messages name the culprit',
"The message of every exception of parse() names what is wrong in the user's terms: the option as spelled or declared (not for values of named enumerations), the offending value and the expected type, range, list or pattern; for positional options their number; for unknown identifiers the identifier or all characters of the unknown group, for subcommands the available ones. The parts are those of the actual error, never those of another argument.",
['inputs','configurations'],'every kind of error crossed with every option kind, notation and position among other (valid) arguments',
'The tests compare few messages, mostly of the first option on the line.',
[FP,PA,VA],[('messages',FP+': throw_on_input_error, check_for_unknown_ids, get_option; '+VA)],['what() of the exceptions'])
prop('C22','Parsers are independent of each other and of the past',
"What a parser does depends only on its own declarations and arguments: interleaving the calls of two parsers, or using any number of parsers before, changes nothing, and copies of validators and configurations share no state. A parse() gives the same result every time it is repeated with a fresh parser.",
['schedules','histories'],'all interleavings of the call sequences of two parsers, for every pair of a set of command lines that includes errors and special requests',
'Each test uses one parser at a time.',
[PA,FP],[('parser state',PA+': members of sharg::parser')],['values, exceptions, pages of both parsers'])
prop('C23','Exported tool descriptions (CTD, CWL) match the declaration',
"--export-help ctd and cwl (any spelling of the request, the last request counts) print, without running the program, a description with exactly the declared non-hidden options, flags and positional options (positional ones first, then in the order of declaration): each with the long identifier (else the short one, positional_N for positional options) as name, its type, default value, description with default message and validator restrictions, and the tags required, advanced, file, directory, output that apply; every option is mapped to the identifier that the command line accepts; version, name, URL, executable, description and the subcommands that lead to the parser are those of the application. No variable changes. Built without the TDL library, both formats are rejected with validation_error.",
['configurations','inputs'],'every sequence of declarations of bounded length, all subsets of meta data, all argument lists around the request',
'The tests compare four descriptions, and only where the library is installed.',
['detail/format_tdl.hpp'],[('export','detail/format_tdl.hpp: format_tdl')],['standard output of --export-help ctd|cwl'])
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(p)+'\n')
