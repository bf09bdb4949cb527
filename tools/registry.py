"""What is run for each property."""
import os

STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'src', 'tdl_stub')
ENV = ['The library is compiled with g++ -std=c++20 from /repo/include; std::exit, isatty and ioctl are replaced by stand-ins of the '
       'harness, HOME and TMPDIR point into a scratch directory.']
LINES = ('Every argument list of at most the stated number of tokens over the alphabet of the section is given to a fresh parser; the '
         'result (values, exception class, printed page and exit code, is_option_set answers, sub-parser) is compared with a one-pass '
         'reference model. states: distinct states of the model; transitions: arguments processed; traces: executions of the implementation.')


def cmdline():
    return dict(jobs=[dict(harness='h_cmdline')], rule=LINES, assumptions=ENV)


CHECKS = {p: cmdline() for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C10', 'C11', 'C13')}
CHECKS['C06'] = dict(
    jobs=[dict(harness='h_convert')], assumptions=ENV,
    rule='Every text up to the stated length over an alphabet of digits, signs, points, exponents, letters, blanks and control characters, '
         'plus every decimal number near the limits of each type, is given as option value, positional value and list element of every '
         'supported type; the outcome and value are compared with an exact (128 bit) reference conversion. states: distinct pairs of type '
         'and text; transitions: conversions.')
CHECKS['C07'] = dict(
    jobs=[dict(harness='h_validators')], assumptions=ENV,
    rule='Validators: every pair of limits and every value from the boundary values of each type (also with limits of another type), every '
         'list over a small set, every text up to a length against regular expressions whose language is also written by hand, every chain '
         'of 2-4 validators over all subsets of a domain and in every nesting. Parser: every argument list of at most the stated number of '
         'tokens, with a validator that records what it is called with, for each way of throwing. states: distinct inputs; transitions: '
         'verdicts or arguments.')

FILES = ENV + ['The exploring processes run as an unprivileged user in a scratch directory of their own.', 'Named pipes are not given to '
               'output_file_validator(open_or_create): opening them waits for the other side.']
FILES_RULE = ('Every state of a small tree (9 states of the parent directory; missing, regular file, directory, link, pipe, socket, device with '
              'all permissions and contents) is built on disk, every validator is called on every spelling of the path, alone, in a chain, on '
              'lists, in a parser and in sequences of up to three calls, and all file names up to a length with several extension lists; ')
CHECKS['C08'] = dict(jobs=[dict(harness='h_files')], assumptions=FILES,
                     rule=FILES_RULE + 'the verdict is compared with a model of POSIX permissions. states: distinct states of the tree; transitions: validations.')
CHECKS['C09'] = dict(jobs=[dict(harness='h_files')], assumptions=FILES,
                     rule=FILES_RULE + 'the complete tree (entries, modes, contents, link targets) is compared before and after every call. '
                     'states: distinct states of the tree; transitions: validations.')

CHECKS['C12'] = dict(
    jobs=[dict(harness='h_design')], assumptions=ENV,
    rule='Every sequence of up to three set-up calls, parse() calls and queries out of a menu of 42 (valid ones and one for every documented '
         'mistake), every sequence of up to five out of 15, followed by parse() with a command line for what was accepted; every short '
         'identifier, every long identifier, application and subcommand name up to a length over 25 characters. Each call is compared with '
         'a model of the set-up rules, the final values with the accepted declarations. states: distinct model states; transitions: calls.')
CHECKS['C14'] = dict(
    jobs=[dict(harness='h_pages'), dict(harness='h_pagetypes', flags=['-O0'])], assumptions=ENV + ['The pages are read back by interpreters for plain text with terminal codes, HTML and man pages.'],
    rule='Every sequence of up to three declarations out of a menu of 34 (options, flags, positional options, sections, lines, list items; '
         'normal, advanced, hidden, required, with validators and default messages), longer ones over a smaller menu, every subset of 14 meta '
         'data fields, sub-parsers, and 24 types of values with several defaults, validators and kinds of options; every page (help, advanced help, HTML, man, version, copyright, short help) is read back into blocks '
         'which are compared with the blocks of a model. states: distinct declarations; transitions: declarations.')
CHECKS['C15'] = dict(
    jobs=[dict(harness='h_pages')], assumptions=CHECKS['C14']['assumptions'],
    rule='Every text up to the stated number of tokens (letters, blanks, backslashes, markup, quotes, dots, line breaks, HTML characters) in '
         'each of 27 places of a page, in every format, with and without a terminal; long texts around the right margin for 14 terminal widths. '
         'The page read back must show the text with its markup resolved, must be well formed and not exceed the width. states: distinct texts '
         'and places; transitions: tokens.')
UPDATE = ENV + ['system(), the real time clock, pthread_create() and isatty() are stand-ins of the harness: no request leaves the process. '
                'The exploring processes run as an unprivileged user with HOME and TMPDIR in a scratch directory.']
CHECKS['C16'] = dict(
    jobs=[dict(harness='h_update'), dict(harness='h_update', mode='release')], assumptions=UPDATE,
    rule='Every record of an earlier decision (none; ASK, ALWAYS, NEVER of ten ages) crossed with developer switch, environment variable, '
         '--version-check value and position, command line, terminals and answer; every text of up to three tokens and every kind of file as '
         'record; every history of three runs of one or two applications with all waiting times, decisions and answers. After each run the '
         'requests, the question, the characters read and all files are compared with a model. Debug and release builds. states: distinct '
         'states of the records; transitions: runs of an application.')
CHECKS['C17'] = dict(
    jobs=[dict(harness='h_update'), dict(harness='h_update', mode='release')], assumptions=UPDATE,
    rule='Every pair of versions over a set of numbers, every pair of 55 lines in 7 layouts and every text up to five tokens as version record, '
         'against several own versions; every application name, own version and home directory up to a length over shell characters and each '
         'availability of download programs; the recorded command is split by a model of the shell. Debug and release builds. states: distinct '
         'inputs; transitions: runs.')
CHECKS['C18'] = dict(
    jobs=[dict(harness='h_update'), dict(harness='h_update', mode='asan', only='C18/schedules'),
          dict(harness='h_update', mode='tsan', only='C18/schedules')], assumptions=UPDATE,
    rule='Every combination of 21 states of the home directory, 5 of the temporary directory, and (up to two of) 9 states of the files, '
         'availability of programs, result of the request and missing threads, for ten command lines: values, exception, page, exit code and the '
         'file system are compared with a run without update check. Schedules: the request ends before, after parse(), within and after the '
         'destructor, with moves; also under AddressSanitizer and ThreadSanitizer. states: distinct environments; transitions: runs.')
CHECKS['C19'] = dict(
    jobs=[dict(harness='h_life'), dict(harness='h_life', mode='asan', only='C19/one move')], assumptions=ENV,
    rule='Every sequence of up to two (thorough: three) of 12 declarations, 20 command lines, and a move (six kinds of construction, assignment and '
         'swap) before every step of the program, with and without moving the sub-parser; every program with two moves; many declarations. The complete log of '
         'values, exceptions, pages and answers is compared with that of the program without moves. Also under AddressSanitizer and UBSan. '
         'states: distinct logs; transitions: steps.')
CHECKS['C22'] = dict(
    jobs=[dict(harness='h_life'), dict(harness='h_life', mode='asan', only='C22/earlier parsers'),
          dict(harness='h_life', mode='asan', only='C22/copies'), dict(harness='h_threads', mode='tsan')],
    assumptions=ENV + ['Threads: ThreadSanitizer decides from the happens-before relation whether accesses of the two threads can conflict; the '
                       'standard library is not instrumented.'],
    rule='Every interleaving of the seven steps of two parsers, for every pair of scenarios (valid lines, errors, pages, subcommands); every '
         'sequence of three earlier scenarios; configurations and validators that are copied, used for two parsers and changed before and after; '
         'pairs of uses (quick: half of them) and copies of configurations in two threads, in both orders, under ThreadSanitizer. '
         'Each log is compared with that of the scenario alone in a new process. states: distinct positions of the parsers; transitions: steps.')
CHECKS['C20'] = dict(
    jobs=[dict(harness='h_enum')], assumptions=ENV,
    rule='For six types (names by argument dependent lookup and by specialisation; aliases, prefixes, unterminated, special and no names; a class '
         'type): every text up to the stated length over the characters of the names, every text two edits away from a name, in five notations; '
         'every list of up to four names; value_list_validator over every sequence of up to four enumerators built in four ways; printing of '
         'every enumerator. states: distinct inputs; transitions: arguments.')
CHECKS['C21'] = dict(
    jobs=[dict(harness='h_messages')], assumptions=ENV,
    rule='Every kind of error (values that cannot be parsed, are out of range or rejected by a validator, for 13 types of options; missing values, '
         'options given twice, missing required options, unknown identifiers and groups of flags, positional options, subcommands, special '
         'requests) in every notation and naming of the option, with every choice of up to two valid options before and one behind, in the parser and in '
         'a sub-parser; all pairs of two errors. The message must have the words of the error and none of other options. states: distinct lines; '
         'transitions: arguments.')
CHECKS['C23'] = dict(
    jobs=[dict(harness='h_tdl', flags=['-DSHARG_HAS_TDL=1', '-I', STUB]), dict(harness='h_tdl', flags=['-DSHARG_HAS_TDL=0'])],
    assumptions=ENV + ['The tool description library is not available here: the code is built with a stand-in (src/tdl_stub) with the types of '
                       'the library whose converters print what they are given. What the real library prints is not covered.'],
    rule='Every sequence of up to three (thorough: four) of 30 declarations (types, kinds, validators, advanced, hidden, required, only short '
         'identifiers), for both formats and, for up to two declarations, in every depth of subcommands up to three; every subset of the meta '
         'data; list options; every list of up to four (thorough: five) arguments out of 16 around --export-help. The complete description is '
         'compared with that of a model. Also built without the library. states: distinct declarations and lines; transitions: declarations '
         'and arguments.')
