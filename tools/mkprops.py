#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay easy to edit and diff)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["stdout / output file of the gendlopen command"], hook_needed=None)))

W = "The tests feed one 'helloworld' list (7 symbols) through fixed option combinations; "

p("C01", "Every declaration in the input is extracted exactly",
  "For any input made of supported C declarations (functions, function pointers, objects, arrays, in every documented spelling, with or without 'extern' and superfluous parentheses, of any number and length), gendlopen reports exactly the declared symbols: none lost, none invented, functions and objects each in input order, and each with exactly its declared type, argument list and parameter names. The spelling used for a declaration never changes what is reported.",
  ["inputs", "programs"], "all sequences of supported declarations: every type shape, pointer depth, qualifier position, parameter shape, array dimension, symbol/parameter name length, number of declarations, and every equivalent spelling of each",
  W + "they never see parenthesised names, multi-dimensional arrays, long names or hundreds of symbols, and only check that the result links.",
  ["src/parse.cpp", "src/tokenize.cpp", "src/check_pattern.cpp", "src/parameter_names.cpp", "src/lex.l"],
  [("token patterns per declaration kind", "src/check_pattern.cpp MKFUNC table"), ("removal of superfluous parentheses", "src/tokenize.cpp remove_superfluous_parentheses"), ("split of the parameter list", "src/parse.cpp copy_parameters")])

p("C02", "Text that is not a declaration never changes the result",
  "Inserting comments of either style, preprocessor lines (including continued and commented ones), backslash-newline splices inside such text, struct/union/enum/typedef blocks, empty statements, a UTF-8 byte order mark, or any change of whitespace and of line-ending style (LF or CRLF) between the tokens of an input does not change the symbols, types, argument lists or parameter names that gendlopen reports. Declarations that stand before, between or after such text are all still found.",
  ["inputs"], "all insertions of ignorable text at all token boundaries of all supported inputs",
  W + "the input has two comments, one preprocessor line and no splice, CRLF or BOM.",
  ["src/lex.l", "src/lex.yy.c", "src/tokenize.cpp"],
  [("lexer start conditions for comments and preprocessor lines", "src/lex.l"), ("struct/union/enum/typedef blocks skipped up to the closing ';'", "src/tokenize.cpp tokenize_stream")])

p("C03", "Unsupported input is refused loudly, never guessed",
  "If the input contains anything gendlopen cannot represent (an illegal character, an initialiser or function body, a malformed or unsupported declaration, a parameter whose name cannot be read in the default mode, the same symbol declared twice, or no declaration at all), the run exits with status 1, explains why on stderr (naming the correct line for an illegal character), writes nothing to stdout and creates or alters no output file. It never emits output for the part it understood.",
  ["inputs"], "all inputs with at least one unsupported construct at any position, in all output modes",
  W + "no test runs gendlopen on an input that must be rejected.",
  ["src/tokenize.cpp", "src/parse.cpp", "src/parameter_names.cpp", "src/lex.l", "src/main.cpp"],
  [("error() thrown from tokenizer and parser before output is opened", "src/tokenize.cpp, src/parse.cpp"), ("line counting for illegal characters", "src/lex.l set_illegal_char")])

p("C04", "No input, option list or template crashes or hangs the tool",
  "For every byte sequence given as input file, AST dump or custom template and every list of command-line and %option arguments, gendlopen terminates with exit status 0 or 1, without memory errors, undefined behaviour or uncaught exceptions; on status 1 it prints a message on stderr.",
  ["inputs", "configurations"], "all byte strings as input/template, all argument vectors",
  W + "all of them well-formed; no sanitizer or fuzzer is used.",
  ["src/lex.yy.c", "src/tokenize.cpp", "src/parse.cpp", "src/check_pattern.cpp", "src/clang_ast.cpp", "src/substitute.cpp", "src/utils.cpp", "src/options.cpp", "src/opt_parser.h", "src/main.cpp"],
  [("bounds checks in pattern matching", "src/check_pattern.cpp check_pattern"), ("exception handling in main", "src/main.cpp")])

p("C05", "-P and -S select exactly the requested symbols",
  "With symbol filters, the symbols used are exactly those whose name starts with one of the -P strings or equals one of the -S strings (case-sensitive, each symbol once, types unchanged by filtering); without filters all symbols are used. If any -S name does not exist in the input, or nothing is selected, the run fails with status 1 and lists precisely the missing names.",
  ["inputs", "configurations"], "all inputs and all combinations of -P and -S lists, including overlapping, repeated and missing names and names that are prefixes of one another, for header and AST input",
  W + "one fixed -P plus four -S names on one AST file.",
  ["src/parse.cpp", "src/clang_ast.cpp", "src/utils.cpp"],
  [("filter modes none/prefix/list/both", "src/parse.cpp parse, src/clang_ast.cpp get_declarations, src/utils.hpp get_filter_mode")])

p("C06", "Parameter modes read, create and skip are faithful",
  "In 'read' mode the parameter-name list is the declared names in order, in 'skip' mode argument lists are passed through unchanged and no parameter names are needed, and in 'create' mode unnamed parameter lists get the names a1, a2, ... inserted at the syntactically right place with types unchanged; '...' is kept in the argument list and never becomes a parameter name. Empty and (void) lists stay as they are in every mode.",
  ["inputs", "configurations"], "all parameter lists (pointers, qualifiers, arrays, callbacks, variadic, empty, void) in all three modes",
  W + "one create-mode list without variadic functions and one skip-mode run.",
  ["src/parameter_names.cpp", "src/parse.cpp"],
  [("parameter classification", "src/parameter_names.cpp"), ("mode selection", "src/gendlopen.cpp parameter_names")])

p("C07", "A Clang AST dump gives the same result as the header it came from",
  "For any C header of supported declarations, the AST that clang prints for it (plain or coloured, LF or CRLF) yields, under -ast-all-symbols or -P/-S, exactly the same symbols and the same function and object types as the header itself, including variadic functions. Function parameters are named a1, a2, ... in order.",
  ["inputs", "programs"], "all headers of supported declarations, dumped by the real clang with and without colours, with all filter options",
  W + "one stored AST file of one old clang version, whose result is only linked.",
  ["src/clang_ast.cpp", "src/lex.l"],
  [("line classification of the AST", "src/lex.l ast/funcvar/parmvar patterns"), ("type and parameter extraction", "src/clang_ast.cpp get_declarations")])

p("C08", "%option lines and command-line options mean the same",
  "Each option that may be given on a %option line has exactly the effect of the same command-line option, wherever the line stands and however it is split or repeated, and command-line spelling does not matter ('-opt=x', '--opt=x', '-opt x'; -D/-P/-S attached or separate; option order among independent options; letter case of format and mode names). -ignore-options makes the output the same as if the %option lines were absent; unknown or argument-less options are refused with status 1.",
  ["configurations", "inputs"], "all option sets and all equivalent ways of writing them",
  W + "one %option file and two spellings.",
  ["src/options.cpp", "src/opt_parser.h", "src/opt_parser++.hpp", "src/tokenize.cpp", "src/lex.l", "src/gendlopen.cpp"],
  [("command-line parser", "src/opt_parser.h"), ("%option strings", "src/options.cpp parse_options, src/lex.l OPTION state")])

p("C09", "Output is a pure function of input and options",
  "Two runs with the same input bytes and options produce byte-identical output under -no-date whatever the environment, time, working directory, or whether input arrives by file or stdin and output leaves by stdout or file (up to the file's name in guards and directives); without -no-date only the date on the generated-by line differs. Input files are never modified.",
  ["configurations", "inputs", "histories"], "all inputs and option sets, run repeatedly under different environments, directories, sources and sinks",
  W + "each generated file is produced once and never compared to a second run.",
  ["src/generate.cpp", "src/open_file.cpp", "src/cio_ofstream.cpp", "src/gendlopen.cpp"],
  [("date note", "src/generate.cpp note"), ("stdin/stdout selection", "src/open_file.cpp, src/cio_ofstream.hpp")])

p("C10", "Custom templates are substituted exactly as documented",
  "For any template, every line with function, object or symbol placeholders is emitted once per function, object or symbol in order with every placeholder replaced by the right text ('%%return%%' empty for void functions, padded names aligned, no double space after '*'), '@'-joined lines are treated as one unit, %PARAM_SKIP_*% regions are kept or dropped by parameter mode, and all other text passes through unchanged. Lines mixing placeholder kinds are refused.",
  ["inputs", "programs"], "all templates (placeholders in all combinations and positions, @-joins, skip regions, arbitrary other text, LF/CRLF) against all symbol sets",
  W + "the -template option is used by one test that only formats the symbol list of the sample input.",
  ["src/substitute.cpp", "src/utils.cpp", "src/gendlopen.cpp"],
  [("placeholder loops", "src/substitute.cpp"), ("@ joining", "src/utils.cpp get_lines")])

p("C11", "-prefix renames every generated name and nothing else",
  "With -prefix=X the output equals the default output except that every identifier of the generated API that carries gdo_/GDO_ (or is the bare gdo namespace) carries X in lower/upper case instead with non-alphanumeric characters turned into underscores; the user's own symbol names, types and texts are never altered. Headers generated for disjoint symbol sets with different prefixes can be used together in one translation unit and one program without clashing.",
  ["configurations", "programs"], "all prefixes, all formats, all symbol sets including symbols and types that contain gdo/GDO themselves",
  W + "one prefix ('MyPrefix') in C and C++ with symbols that share nothing with it.",
  ["src/gendlopen.cpp", "src/substitute.cpp", "src/generate.cpp"],
  [("replace_prefixes", "src/gendlopen.cpp"), ("prefix()", "src/gendlopen.cpp")])

p("C12", "Generated code compiles and declares the exact input types",
  "For every supported input and every output format, the generated header compiles without errors with gcc and clang as C (and C++ where offered, C++11 and later), in each documented configuration (plain, static in C, wrapped functions, autoload, aliasing disabled), and every loaded-symbol pointer, alias and wrapper has exactly the type the input declared. A header guard makes repeated inclusion harmless.",
  ["programs", "configurations"], "all supported declaration sets x formats x configuration macros x compilers and language standards",
  W + "with one fixed symbol list; types are only exercised implicitly by calling three functions.",
  ["src/templates/c.h", "src/templates/c.c", "src/templates/cxx.hpp", "src/templates/cxx.cpp", "src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp", "src/templates/plugin.h", "src/templates/plugin.c", "src/templates/common.h", "src/templates/common.c", "src/generate.cpp", "src/substitute.cpp", "src/tokenize.cpp"],
  [("typedefs for function pointers and arrays", "src/tokenize.cpp create_typedefs"), ("templates", "src/templates")],
  observe=["compiler acceptance and static type assertions on the generated code"])

p("C13", "-separate output links and shares one loader between units",
  "The header/body pair written by -separate compiles on its own and links when the header is included in any number of translation units, in every documented configuration; all units observe one and the same library handle and symbols, and behave as with the single-file output. Extensions follow the language, and the options that are documented to ignore -separate produce the single-file output.",
  ["programs", "configurations"], "all symbol sets x {C, C++, plugin} x configuration macros x number of units x output names",
  W + "one C and one C++ multi-unit program with one configuration each.",
  ["src/generate.cpp", "src/data.cpp", "src/templates/c.h", "src/templates/c.c", "src/templates/cxx.hpp", "src/templates/cxx.cpp"],
  [("GDO_SEPARATE / GDO_INCLUDED_IN_BODY", "src/generate.cpp, src/templates/c.h"), ("template lists", "src/data.cpp create_template_lists")],
  observe=["linking and running multi-unit programs built from the output"])

p("C14", "#line directives point at the true origin of each line",
  "With -line, every line of generated output that stems from a template line (other than the license text at the top) is attributed by the compiler to that template file and line number, and lines that gendlopen adds itself are attributed to the output file and their own line number there. Apart from the directives, the output is the same text as without -line.",
  ["inputs", "configurations"], "all symbol sets (no functions, no objects, many of both), formats, parameter modes, custom templates and external template directories",
  W + "one -line run whose line numbers nobody looks at.",
  ["src/substitute.cpp", "src/generate.cpp", "src/data.cpp", "src/gendlopen.cpp"],
  [("line accounting", "src/substitute.cpp m_substitute_lineno, src/generate.cpp line_directive")])

p("C15", "Dumped templates reproduce the built-in output and edits take effect",
  "Using the directory written by -dump-templates with -templates-path gives the same output as the built-in templates for every format and option set, except for file names in #line directives; a change made to any template file used by the chosen format appears at the right place of the output, and changes to files of other formats do not. A missing template file is refused with status 1. The template data compiled into the tool equals the template files, whatever characters they contain.",
  ["configurations", "inputs"], "all formats x options x template edits",
  W + "no test uses -dump-templates or -templates-path.",
  ["src/data.cpp", "src/generate.cpp", "src/utils.cpp", "src/gen_templates_data.c", "src/templates/list.h"],
  [("load_from_file / save_to_file", "src/data.cpp"), ("built-in template data", "src/gen_templates_data.c")])

p("C16", "Output files are never clobbered, half-written or misdirected",
  "Without -force an existing output path (file, directory or symlink, even dangling) is left untouched and the run fails; with -force the path itself is replaced and symlink targets are never written. Status 0 means that every promised output file, and only those, exists with complete contents; if output cannot be written completely, the status is 1 with a message.",
  ["configurations", "fault_sequences"], "all kinds of pre-existing path at header and body location x formats x -separate/-force x write failures (missing directory, full device, size limit)",
  W + "every test writes with -force into an empty build directory.",
  ["src/generate.cpp", "src/cio_ofstream.cpp", "src/cio_ofstream.hpp", "src/gendlopen.cpp", "src/main.cpp"],
  [("open_ofstream", "src/generate.cpp"), ("stream state", "src/cio_ofstream.hpp")],
  observe=["file system state before and after the run, exit status, stderr"])

p("C17", "-D, -include, -library and header guards land exactly as requested",
  "Each -D becomes a definition that is in effect in the generated code unless already defined, each -include becomes one #include line with the documented quoting in the given order, and -library in each documented mode makes the default library name exactly the documented string (API and extension modes per platform naming scheme), and is overridable by a macro. -no-pragma-once produces a working #ifndef guard and nothing else changes.",
  ["configurations"], "all macro names/values, include spellings, library names and modes, platforms' naming schemes, orders and repetitions",
  W + "one -D, one -include and two library modes.",
  ["src/generate.cpp", "src/gendlopen.cpp", "src/templates/filename_macros.h", "src/templates/common.h"],
  [("format_libname, includes, extra_defines, header_guard_begin", "src/generate.cpp"), ("add_inc/add_def", "src/gendlopen.cpp")],
  observe=["preprocessed generated code"])

p("C20", "C loader: state always matches what was really loaded",
  "For every sequence of calls to the generated C API and every pattern of failures of the dynamic linker, the loaded-state predicates and every symbol pointer always reflect exactly the library handle and addresses the dynamic linker really returned: a second load is refused without touching the first, a failed operation changes nothing it does not have to, freeing resets everything, and a failed gdo_free_lib keeps everything. Each call returns true exactly on success, and each opened handle is closed at most once and never used afterwards.",
  ["histories", "fault_sequences"], "all call sequences x all dlopen/dlmopen/dlsym/dlclose outcomes x symbol sets x linkage variants",
  W + "each test program runs one fixed sequence with a library in which everything succeeds.",
  ["src/templates/c.c", "src/templates/c.h", "src/templates/common.c"],
  [("gdo_hndl state", "src/templates/c.c gdo_load_lib_args, gdo_free_lib, gdo_load_all_symbols")],
  observe=["return values, predicates and pointers of the generated API; the calls that reach the dynamic linker"],
  state=[dict(name="gdo_hndl", meaning="library handle and symbol pointers", where="src/templates/c.h")])

p("C21", "C loader: error text and library path tell the truth",
  "After every call, gdo_last_error is a non-empty text: 'no error' exactly when the last operation succeeded, otherwise the reason for that very operation (the dynamic linker's own message when it failed there, or a text naming the cause, such as the unknown symbol, otherwise), never a stale one. gdo_library_path is the path of the loaded library (absolute wherever the dynamic linker or the process map tells it), NULL with a reason when none is loaded or it cannot be determined, and is never stale after freeing or loading another library.",
  ["histories", "fault_sequences"], "all call sequences and linker failures, library names relative, absolute and via symlink, long names and messages",
  W + "the error text is printed, never compared; gdo_library_path is checked once after one load.",
  ["src/templates/c.c", "src/templates/common.c"],
  [("errbuf", "src/templates/c.c _gdo_save_error"), ("libpath", "src/templates/c.c gdo_library_path, _gdo_libpath_dlinfo, common.c _gdo_fullpath_procmap")],
  observe=["gdo_last_error() and gdo_library_path() after every call"])

p("C22", "C++ loader class: state, errors and lifetime are consistent",
  "For every sequence of operations on any number of gdo::dl objects and every pattern of dynamic linker failures, lib_loaded, the *_loaded predicates, symbol pointers, flags, filename, error and library_path of the object reflect what really happened, with the same success/failure rules as the C API; free(true) always resets, free() only on success, and destructors free the library unless disabled. No handle is closed twice or used after closing.",
  ["histories", "fault_sequences"], "all operation sequences over several objects x all linker outcomes x symbol sets",
  W + "a single object with one fixed successful sequence.",
  ["src/templates/cxx.cpp", "src/templates/cxx.hpp", "src/templates/common.c"],
  [("gdo::dl", "src/templates/cxx.cpp")],
  observe=["public interface of gdo::dl; the calls that reach the dynamic linker"])

p("C23", "Minimal C loader is all-or-nothing",
  "The minimal C header's load function returns NULL and leaves every symbol loaded, or returns a message naming the cause (the first missing symbol by name) and leaves the library closed and every pointer NULL; the free function always resets everything and may be called at any time. This holds for every library content, call sequence and linker failure.",
  ["histories", "fault_sequences"], "all load/free sequences x libraries missing any subset of symbols x linker failures",
  W + "one successful load.",
  ["src/templates/minimal.h"], [("gdo_load_library_and_symbols", "src/templates/minimal.h")],
  observe=["return value, pointers, dlopen/dlclose balance"])

p("C24", "Minimal C++ loader throws precisely and leaks nothing",
  "The minimal C++ header's load function returns with every symbol loaded, or throws LibraryError carrying the file name (or the documented marker for NULL/empty) respectively SymbolError carrying the first missing symbol's name, leaving the library closed and every pointer null. free_library always resets everything and may be called at any time.",
  ["histories", "fault_sequences"], "all load/free sequences x libraries missing any subset of symbols x linker failures",
  W + "one successful load.",
  ["src/templates/minimal_cxxeh.hpp"], [("gdo::load_library_and_symbols", "src/templates/minimal_cxxeh.hpp")],
  observe=["exceptions, pointers, dlopen/dlclose balance"])

p("C25", "Plugin loader: every list entry mirrors its own file",
  "For any list of plugin file names, the returned list has one entry per name in order, each with its own copy of the name, a handle exactly if that file could be loaded, and each symbol pointer exactly what that very library provides (NULL if it lacks it); failures of one entry never affect another. NULL or empty lists give NULL, and releasing closes each loaded handle exactly once and frees all memory.",
  ["histories", "fault_sequences", "inputs"], "all plugin lists (missing, empty, NULL, duplicate names; libraries lacking symbols) x linker failures, several lists at once",
  W + "two good plugins.",
  ["src/templates/plugin.c", "src/templates/plugin.h"], [("gdo_load_plugins / gdo_release_plugins", "src/templates/plugin.c")],
  observe=["returned structure, dlopen/dlclose trace, leak checker"])

p("C26", "Wrapped functions forward calls exactly, hooks run first",
  "With GDO_WRAP_FUNCTIONS, calling a loaded function through its wrapper passes every argument (including variadic ones) and the return value unchanged, runs the user's hook exactly once before the real call with the real arguments, and hooks on one function never affect another. Calling a wrapper whose symbol is not loaded reports the symbol and reason on stderr (or to the C++ message callback) and aborts without calling anything.",
  ["programs", "inputs", "histories"], "all function signatures x argument values x hook sets x loaded/not-loaded states, C and C++, all compilers",
  W + "three functions with constant arguments and one hook.",
  ["src/templates/c.h", "src/templates/c.c", "src/templates/cxx.hpp", "src/templates/cxx.cpp"],
  [("wrap code", "src/templates/c.h, src/templates/cxx.hpp"), ("_gdo_wrap_check_loaded / not_loaded", "src/templates/c.c, src/templates/cxx.cpp")],
  observe=["arguments and results seen by the library, hook trace, exit status, stderr"])

p("C27", "Autoload loads on first use, what is needed, and fails cleanly",
  "With autoload enabled, the first call of any wrapper loads the default library and then all symbols (eager) or just the called one (lazy) and then makes the call; later calls do not open the library again, a symbol missing from the library only matters if it is needed (lazy) or at all (eager), and the library is closed exactly once at exit. If library or symbol cannot be loaded, the program prints an error naming the symbol and the library and exits with status 1 instead of calling through a null pointer.",
  ["histories", "fault_sequences"], "all call sequences x libraries with any subset of symbols x linker failures x eager/lazy x C/C++, mixed with explicit loads and frees",
  W + "one eager run in which everything succeeds.",
  ["src/templates/c.c", "src/templates/cxx.cpp", "src/templates/common.h"],
  [("_gdo_wrap_check_loaded", "src/templates/c.c"), ("gdo::wrap::not_loaded", "src/templates/cxx.cpp")],
  observe=["linker call trace, results, stderr, exit status"])

p("C28", "Single-symbol loading resolves exactly the named symbol",
  "Loading by enumeration value or by name loads exactly that symbol and no other; every generated symbol is reachable by both its name and its value, and a name or value not in the list (NULL, empty, prefixes or extensions of real names, names with other case or different characters anywhere) is refused with an error naming it and changes nothing. This holds for every symbol set, whatever prefix the names share.",
  ["inputs", "programs"], "all symbol sets (shared prefixes, one symbol a prefix of another, single symbol, hundreds) x all query strings and integers, C and C++",
  W + "one test loads three existing names and values.",
  ["src/templates/c.c", "src/templates/cxx.cpp", "src/generate.cpp"],
  [("common prefix shortcut", "src/generate.cpp get_common_prefix, src/templates/c.c gdo_load_symbol_name"), ("enum GDO_LOAD_*", "src/templates/c.h")],
  observe=["which pointers are non-NULL after the call; dlsym requests"])

p("C29", "A loaded library is released exactly once at exit",
  "With autorelease (C) or default destructor behaviour (C++), whatever library is loaded when the program ends is closed exactly once, whether it was loaded before or after enabling, freed and reloaded, or freed already (then not again), however often autorelease was enabled; if it is not enabled (or disabled in C++), nothing is closed. If registration fails, enabling reports failure and may be retried.",
  ["histories", "fault_sequences"], "all sequences of enable/load/free/exit, atexit failures, C and C++ lifetimes",
  W + "one load/enable/exit sequence.",
  ["src/templates/c.c", "src/templates/cxx.cpp"],
  [("gdo_enable_autorelease", "src/templates/c.c"), ("gdo::dl::~dl", "src/templates/cxx.cpp")],
  observe=["dlclose trace up to process end"])

p("C30", "The Win32 flavour obeys the same rules",
  "Compiled for the Win32 API, narrow or wide, the generated C, C++, minimal and plugin loaders follow the same state rules as on POSIX for every sequence of calls and failures of LoadLibrary/GetProcAddress/FreeLibrary, keep the system error of the failed operation in the error text, and free every system buffer exactly once. The C and C++ loaders pass paths with backslashes only, through the A or W function that the configuration asks for; a file name that cannot be converted is an error and opens nothing. The library path is the module's full path or an error. A failing autoload tells library and function and ends the program.",
  ["histories", "fault_sequences", "configurations"], "all call sequences x Win32 failures x {A, W} x {C, C++, minimal, plugin} x filename conversions",
  "The Win32 tests are skipped on Linux, so nothing exercises this half of the templates here.",
  ["src/templates/c.c", "src/templates/cxx.cpp", "src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp", "src/templates/plugin.c", "src/templates/common.c"],
  [("GDO_WINAPI branches", "src/templates/c.c, src/templates/cxx.cpp")],
  observe=["generated code compiled against a model of the Win32 loader API"])

p("C31", "Flavours for other systems with dlopen() obey the same rules",
  "Compiled as for AIX, macOS, Android, musl, the BSDs, Solaris or dlfcn-win32 (GDO_USE_DLOPEN, _UNICODE set or not), the generated C, C++, minimal and plugin loaders follow the same state rules as on Linux for every sequence of calls and linker failures, and pass the flags documented for the system (RTLD_MEMBER for AIX archive members; a new namespace only where dlmopen() exists). Versioned library names have the system's form. The library path is the path of the loaded module - on AIX with its archive member, found in the list of loaded modules in whatever order and layout; with kernel headers of Linux 6.11 through ioctl(PROCMAP_QUERY), without leaking the descriptor, or the text of /proc/self/maps when that fails; on Windows from GetModuleFileNameA() - or an error when it is unknown or too long, never a truncated or another module's path. A failing autoload names library and function and ends the program.",
  ["histories", "fault_sequences", "configurations"], "all call sequences x linker failures x {AIX, macOS, Android, musl, FreeBSD, DragonFly, NetBSD, OpenBSD, Solaris, dlfcn-win32} x formats x module lists x paths",
  "Those systems are not available to the tests, so nothing exercises these branches of the templates.",
  ["src/templates/c.c", "src/templates/cxx.cpp", "src/templates/common.h", "src/templates/common.c", "src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp", "src/templates/plugin.c", "src/templates/filename_macros.h"],
  [("_gdo_aix_*, GDO_DLFCN_WIN32 and system branches", "src/templates/c.c, src/templates/cxx.cpp, src/templates/common.h")],
  observe=["generated code compiled with the system's predefined macros against models of its loader functions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["title"]
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
print(len(P))
