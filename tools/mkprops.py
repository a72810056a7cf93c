#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))
PA='pash_annotations/parser/parser.py'; UP='pash_annotations/parser/util_parser.py'
DATA='pash_annotations/parser/command_flag_option_info/data'
AG='pash_annotations/annotation_generation/AnnotationGeneration.py'
GEN='pash_annotations/annotation_generation/annotation_generators'
IOI='pash_annotations/annotation_generation/datatypes/InputOutputInfo.py'
IOG=GEN+'/InputOutputInfoGenerator_Interface.py'
GI=GEN+'/Generator_Interface.py'
PAR='pash_annotations/annotation_generation/datatypes/parallelizability'
PI='pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py'
DT='pash_annotations/datatypes'
CV=DT+'/CommandInvocationWithIOVars.py'

# ------------------------------------------------------------------ parser
p('C01','Parsing loses, invents and reorders nothing',
  "For every command line, parsing accounts for every word exactly once and in order: the first word becomes the command name, then come flags and options (an option together with its argument, kept verbatim), then operands kept verbatim. "
  "Only spelling normalisation (alias to primary name, one-dash letter groups to single flags, attached option arguments to separate ones) may differ from the input.",
  ['inputs'],'every annotated command and an unannotated one; every sequence of words drawn from the command\'s flags and options, the empty word, dashes and arbitrary short words',
  'The parser tests sample about a dozen command lines; they say nothing about unusual words, repeated options, trailing options, clusters or empty words in other positions.',
  [PA,UP,DATA],[('parse loop',PA+':parse'),('set/dict builders',PA+':get_set_of_all_flags')],['parse()'])
p('C02','Alias spellings are interchangeable',
  "Two command lines that differ only in which documented alias spells a flag or option (for example -q / --quiet / --silent, or -k / --key, or a letter inside a one-dash group) parse to equal invocations. "
  "Consequently they receive equal input/output and parallelizability annotations.",
  ['inputs'],'every annotated utility, every pair of documented spellings of every flag/option, in every position among other flags and operands',
  'Tests check a handful of long spellings for two or three commands; there are several hundred alias pairs and each generator tests primary names only.',
  [PA,DATA,GI],[('alias tables',DATA),('primary representation maps',PA+':get_dict_flag_to_primary_repr')],['parse()','annotation getters'])
p('C03','The first operand ends flag and option parsing',
  "Flag and option recognition stops at the first word that is neither a documented flag or option nor a group of one-letter ones: the empty word, '-', '--', a final option lacking its argument and any other such word is an operand. "
  "From that word on every word, including ones that look like flags or options, is an operand, verbatim and in order. A command nothing is documented about (also one given by a path) has no flags and options: all its words are operands.",
  ['inputs'],'every annotated command; every word sequence mixing flags, options, empty words, dashes and arbitrary words',
  'Tests contain one empty-string case and no dash, double-dash, or flag-after-operand cases.',
  [PA],[('break on operand',PA+':parse'),('cluster test',PA+':are_all_individually_flags')],['parse()'])
p('C04','Options take the arguments the utility documents',
  "For every annotated utility, an option documented to require an argument takes exactly the next word (whatever it looks like), or the attached text when written attached (-n5, --lines=5), and one documented to take none leaves the next word alone. "
  "So the words that end up as operands are exactly the utility's operands.",
  ['inputs'],'every documented flag and option of every annotated utility, in every spelling, followed by arbitrary words',
  'The tests exercise only a few options per command; the tables have several hundred entries and a wrong arity silently turns a number into an input file.',
  [DATA,PA],[('flag/option tables',DATA),('option branch',PA+':parse')],['parse()'])
p('C05','Words are split as the shell splits them',
  "The words of an invocation are those a POSIX shell would produce for the given simple command (without unquoted newlines, operators, expansions or comments): blanks separate words, single and double quotes and backslashes quote and are removed, an adjacent quoted part joins its word, and quoted empty words survive. "
  "In particular a word containing blanks, quotes, backslashes, '#' or newlines that was properly quoted arrives unchanged.",
  ['inputs'],'all command strings up to a stated length over an alphabet of blanks, quotes, backslash, hash, newline, dash and letters',
  'Tests use well-behaved command lines; only one test has quoting at all.',
  [PA],[('shlex.split',PA+':parse')],['parse()'])
p('C06','Printing a parsed invocation and reparsing it is stable',
  "If the flags, options (name then argument) and operands of a parsed invocation are written out again in order as a command line and parsed, the result equals the first parse. "
  "So canonicalisation is idempotent and nothing changes meaning when a command is regenerated.",
  ['inputs'],'every annotated command; every word sequence as in C01',
  'No test reparses anything.',
  [PA,DATA],[('canonical names',PA)],['parse()'])
p('C07','Unknown means no information, and annotating never raises',
  "For any parsed invocation, asking for input/output or parallelizability information either returns information or returns nothing; it never raises. "
  "A command without annotations, and an invocation an annotation does not cover (a third uniq operand, repeated mv -t, comm without exactly two operands, wc --files0-from, set_diff without exactly one operand), gets no input/output information.",
  ['inputs'],'every annotated command and arbitrary other command names; every word sequence up to the bound',
  'Tests do not exercise unknown commands, and cover none of the refusals systematically.',
  [AG,GEN],[('dispatch and catch-all',AG+':get_input_output_info_from_cmd_invocation')],['annotation getters'])
# ------------------------------------------------------------------ io
p('C08','Streaming inputs are exactly the data the utility reads',
  "For every covered invocation of an annotated utility, the streaming inputs reported are exactly the data operands it reads, in command-line order, and standard input is reported as the implicit streaming input exactly when the utility reads it without it being named. "
  "No other operand is reported as a streaming input.",
  ['inputs'],'every annotated utility; all combinations of documented flags/options up to the bound; all numbers of operands up to the bound; arbitrary operand names',
  'Each test fixes one operand list per command; dropping the last file, or losing stdin under one flag combination, passes them.',
  [GEN,IOI,IOG],[('per-command generators',GEN)],['apply_input_output_info_to_command_invocation()'])
p('C09','Streaming outputs are exactly where the utility writes its stream',
  "For every covered invocation of an annotated utility, standard output is reported as the implicit streaming output exactly when the utility writes its result there, and named streaming outputs (tee operands, the second uniq operand, the argument of sort -o) are reported exactly and in order; grep -q and sort -c or -C write none. "
  "No operand that is only read is reported as an output.",
  ['inputs'],'as C08','As C08; only grep -q and sort -o have isolated tests.',
  [GEN,IOI,IOG],[('per-command generators',GEN)],['apply_input_output_info_to_command_invocation()'])
p('C10','Configuration operands are never confused with data',
  "An operand that is program text or a parameter (a grep pattern, awk program, sed script, tr set, seq bound, xargs command word) is reported as an argument string, with its text unchanged, and never as a file. "
  "When the program comes from an option instead (grep/sed -e or -f, awk -f), every operand is data.",
  ['inputs'],'grep, awk, sed, tr, seq, xargs, set_diff; all flag/option combinations up to the bound; arbitrary operand texts including \'-\'',
  'Tests have one or two lines per command, none with mixed -e/-f and other options.',
  [GEN,IOI],[('config operand setters',IOI+':set_first_operand_as_config_arg_type_string')],['apply_input_output_info_to_command_invocation()'])
p('C11','Effects beyond streams are always declared',
  "Every operand or option argument that a command creates, removes, renames or uses as a scratch or target directory (rm, mkfifo, the destination of mv, mv -t, sort -T) is reported as a non-streaming output, the files mv takes are reported as non-streaming inputs, and the query for such outputs answers yes. "
  "For every other covered invocation that query answers no.",
  ['inputs'],'every annotated command; all flag/option combinations and operand lists up to the bound',
  'Only four mv tests touch this; the query has_other_outputs has no test at all.',
  [IOI,GEN+'/InputOutputInfoGeneratorMv.py',GEN+'/InputOutputInfoGeneratorRm.py',DATA],[('has_other_outputs',IOI)],['has_other_outputs()'])
p('C12','Applying I/O information changes nothing but adds access kinds',
  "Applying input/output information to an invocation keeps the command name, all flags, option names, option arguments and operands, with their texts, in their order and number. "
  "A '-' reported as a streaming input becomes standard input and one reported as a streaming output standard output; any other name stays that name.",
  ['inputs'],'every annotated command; every word sequence up to the bound; every access kind for every position',
  'Tests compare selected operand lists of fixed invocations; none uses \'-\'.',
  [IOI,'pash_annotations/util.py'],[('apply',IOI+':apply_input_output_info_to_command_invocation'),('dash handling','pash_annotations/util.py:compute_actual_el_for_input')],['apply_input_output_info_to_command_invocation()'])
p('C13','Files named in options get their documented access kind',
  "An option argument that names a file or directory is reported with the access the utility makes of it: pattern and program files (-f), random sources as configuration input; lists of input files as containers; exclusion lists as exclusions; xargs -a and the diff starting file as other input; output and directory arguments as outputs. "
  "Every other option argument is reported as a plain string with its text unchanged.",
  ['inputs'],'every option of every annotated utility in every spelling, with arbitrary argument text',
  'Tests look at three options in total.',
  [IOG,DATA],[('typing of option arguments',IOG+':get_dict_option_to_class_for_arg')],['apply_input_output_info_to_command_invocation()'])
p('C14','Annotation is a pure function of the invocation',
  "Generating annotations does not modify the invocation, and the same invocation always gets equal annotations, whatever was parsed, annotated, applied or queried before, in any order. Likewise a command line is always parsed to an equal invocation, also after an earlier result was changed. "
  "Using or modifying a returned annotation does not affect later answers for other invocations.",
  ['histories','inputs'],'all two-step histories of parse/annotate/apply/query calls over pairs of arbitrary invocations of annotated commands',
  'Every test starts from a fresh process-wide state and asks once.',
  [AG,IOI,PI,PA],[('fresh generator objects per call',AG)],['annotation getters'])
p('C15','Annotations do not depend on the names of data files',
  "Replacing the name of a data operand by any other ordinary file name changes the annotations in no way other than the name itself: roles, implicit streams, parallelizers and their parts stay the same. "
  "The same holds for the text of option arguments that are plain parameters (not programs, sort keys or sort modes, which select what is done).",
  ['inputs'],'pairs of invocations of every annotated command that differ only in data file names or plain parameter texts',
  'A relational property over pairs of inputs; tests look at single inputs.',
  [GEN],[('generators look at flag names and operand counts only',GEN)],['annotation getters'])
# ------------------------------------------------------------------ parallelizability
p('C16','Splitting the input never changes the output',
  "Whenever an implemented concatenating or merging parallelizer is offered for an invocation of grep, tr, cut, sort, custom_sort, uniq or sed, running the command on consecutive line-aligned pieces of any input and combining the results as the parallelizer says gives the output of running it on the whole input. "
  "Invocations for which this fails get no implemented parallelizer.",
  ['inputs','programs'],'flag/option combinations and operand texts up to the bound, all inputs up to a few lines of a few bytes and all line-aligned splits, for a reference semantics of the utilities that is replayed against the installed utilities',
  'Tests only check which parallelizers are listed for fixed invocations, never that the combination is right for any input.',
  [GEN+'/ParallelizabilityInfoGeneratorGrep.py',GEN+'/ParallelizabilityInfoGeneratorTr.py',GEN+'/ParallelizabilityInfoGeneratorSort.py',GEN+'/ParallelizabilityInfoGeneratorCut.py',GEN+'/ParallelizabilityInfoGeneratorUniq.py'],
  [('gating on flags',GEN)],['parallelizer list'])
p('C17','Each command is offered exactly its documented parallelizers',
  "The concatenating consecutive-chunk and round-robin pair goes to cut, col, custom_tr, xargs, grep without counting (-c), listing (-l, -L), numbering (-n, -b), context (-A, -B, -C, -NUM), -q, -m or -z, sed whose one-line scripts only substitute, transliterate, delete or print, on all lines or those matching one regular expression, without -f, -i, -z or --debug, and tr that neither deletes nor squeezes newlines; tr that does, and uniq without -d, -D, -u, -z, --all-repeated or --group modes, get the same pair with an unimplemented adjacent-lines aggregator. "
  "sort and custom_sort get the merging consecutive-chunk parallelizer and are marked commutative, or get nothing and are not so marked if checking (-c, -C), -u, -s, -m, -z, random (-R, --sort=random, a key with R, --random-source), --files0-from or --debug is given. "
  "set_diff gets the concatenating consecutive-chunk one, test_one and test_two an unimplemented one, the bigram commands their map/reduce pair, and all other commands get none.",
  ['inputs'],'every annotated command; every combination of flags/options up to the bound in every spelling; arbitrary operands',
  'Tests sample one to three flag sets per command; the space is every combination.',
  [GEN,AG],[('gating on flags',GEN),('library functions',GEN+'/ParallelizabilityInfoGenerator_Interface.py')],['parallelizer list'])
p('C18','The sort aggregator merges under the same ordering',
  "For every invocation of sort or custom_sort that gets a parallelizer, the aggregator it yields is the same command with -m exactly once plus every ordering flag and option of the original, with their arguments, in their order, and nothing that changes the ordering or the output target. "
  "It reads exactly the two given inputs in the given order and writes exactly the given output.",
  ['inputs'],'every combination of sort flags/options up to the bound in every spelling; all choices of stream identifiers',
  'Tests compare one filter list; none builds the aggregator for a flag combination.',
  [GEN+'/ParallelizabilityInfoGeneratorSort.py',GEN+'/ParallelizabilityInfoGeneratorCustomSort.py',PAR+'/AggregatorSpec.py',PAR+'/TransformerFlagOptionList.py'],
  [('filter then add -m',GEN+'/ParallelizabilityInfoGeneratorSort.py'),('get_aggregator',PAR+'/AggregatorSpec.py')],['get_actual_aggregator()'])
p('C19','Round robin only where order can be restored',
  "A plain round-robin parallelizer can only be built with a concatenating or adjacent-lines aggregator; any other combination is refused. "
  "A round-robin-with-unwrap variant is offered exactly once for each consecutive-chunk parallelizer of a commutative command and for no other, equals it but for the splitter, and asking for the offered parallelizers again gives the same answer.",
  ['inputs','histories'],'all aggregator kinds, all lists of parallelizers up to the bound, both commutativity values, repeated queries',
  'No test queries the inferred list.',
  [PI,PAR+'/Parallelizer.py'],[('constructor assertion',PAR+'/Parallelizer.py:Parallelizer.__init__'),('inference',PI+':get_inferred_parallelizer_list')],['get_inferred_parallelizer_list()','unpack_info()'])
p('C20','A mapper is the original command with its streams replaced',
  "The mapper built for an invocation has the same command name (or the specified one), flags, options, option arguments and non-stream operands in the same order, with its one streaming input replaced by the given input and its one streaming output by the given output, wherever they occur. "
  "Access information stays consistent with the new identifiers and the original invocation is left unmodified.",
  ['inputs'],'invocations with streams in options, operands or implicit positions, arbitrary stream identifiers (including zero and reused ones), both mapper kinds',
  'No test builds a mapper.',
  [PAR+'/MapperSpec.py',PAR+'/Mapper.py',CV],[('get_mapper',PAR+'/MapperSpec.py')],['get_actual_mapper()'])
p('C21','Aggregators read the given inputs in order and write the given output',
  "A concatenating aggregator is cat over exactly the given inputs in the given order writing to the given output; one given by a command string is that command with its flags over exactly the given inputs in order. "
  "Two-input aggregators refuse any other number of inputs, unimplemented parallelizer parts yield nothing, and no aggregator construction changes the original invocation or the caller's lists.",
  ['inputs'],'all aggregator kinds; up to four inputs with arbitrary identifiers',
  'No test builds an aggregator.',
  [PAR+'/AggregatorSpec.py',PAR+'/Aggregator.py',CV],[('get_aggregator',PAR+'/AggregatorSpec.py')],['get_actual_aggregator()'])
p('C22','Auxiliary pipes are wired in the agreed order',
  "With auxiliary outputs a mapper takes input, output, then each auxiliary output as operands in that order and has no implicit streams, and the number of auxiliary outputs must match what the parallelizer declares; aggregators not given as a command string take no auxiliaries. "
  "The two-input aggregator with auxiliaries takes first input and its auxiliaries, second input and its auxiliaries, then the output and its auxiliaries, all inputs marked as inputs and all outputs as outputs.",
  ['inputs'],'zero to three auxiliary pipes; arbitrary distinct identifiers; the bigram commands end to end',
  'No test covers auxiliary pipes.',
  [PAR+'/MapperSpec.py',PAR+'/AggregatorSpec.py',PAR+'/Parallelizer.py',GEN+'/ParallelizabilityInfoGeneratorBigramsAux.py'],
  [('aux branch',PAR+'/MapperSpec.py:get_mapper'),('aux aggregator',PAR+'/AggregatorSpec.py:get_actual_2_ary_aggregator_with_aux')],['get_actual_mapper()','get_actual_2_ary_aggregator_with_aux()'])
p('C23','Stream substitution is ordered, complete and leaves the rest alone',
  "Substituting inputs (outputs) in an invocation over stream identifiers replaces its streaming inputs (outputs) by the given ones in traversal order: option arguments, operands, implicit input, implicit output. "
  "All other identifiers and argument strings keep their place, each new identifier carries the access kind of the one it replaces, and a mismatch in number is refused.",
  ['inputs'],'invocations with up to four identifiers in any of the positions, all access kinds, arbitrary identifiers',
  'No test touches invocations over stream identifiers.',
  [CV,DT+'/BasicDatatypesWithIOVar.py'],[('traversal order',CV+':flat_map_anything_non_names')],['substitute_inputs_and_outputs_in_cmd_invocation()'])
p('C24','Stream queries and edits agree with the access map',
  "Listing inputs or outputs returns exactly the identifiers in use with a streaming-input (any-output) access, in traversal order, and asking for other outputs answers whether one exists; these queries change nothing. "
  "Replacing an identifier replaces every occurrence and moves its access kind; removing streaming inputs (outputs) drops exactly those identifiers, wherever they occur, and their access entries.",
  ['inputs'],'as C23','As C23.',
  [CV],[('map_var and flat_map',CV)],['generate_inputs()','generate_outputs()','has_other_outputs()','replace_var()','remove_streaming_inputs()','remove_streaming_outputs()'])
p('C25','Flag/option list transformers do what they say',
  "Same-as-original returns the list unchanged, empty returns none, filter keeps exactly the entries whose name is listed, remove drops exactly those, add appends exactly the missing entries after the originals, custom returns the given list, and a chain applies its parts left to right. "
  "Relative order and option arguments are preserved and the original list and the transformer itself are not modified.",
  ['inputs'],'flag/option lists and name lists up to the bound with arbitrary names and arguments; chains of up to three transformers',
  'No test applies a transformer.',
  [PAR+'/TransformerFlagOptionList.py','pash_annotations/util.py'],[('transformers',PAR+'/TransformerFlagOptionList.py'),('foldl','pash_annotations/util.py:foldl')],['get_flag_option_list_after_transformer_application()'])
p('C26','Every access kind is exactly one of input and output',
  "For each access kind exactly one specific query is true, it is an input or an output but never both, and the kind built from a documented name is the one of that name. "
  "Names that are not documented are refused.",
  ['inputs'],'all access kinds; all names up to a bound',
  'Access kinds have no tests of their own.',
  [DT+'/AccessKind.py'],[('predicates',DT+'/AccessKind.py')],['AccessKind'])
p('C27','Equality of invocations and annotation parts is by value',
  "Two flags, options, operands, file names, invocations, access kinds, transformers, mapper and aggregator specifications or parallelizers are equal exactly when they are of the same kind and all their parts are equal. "
  "A deep copy equals its original, and changing the copy does not change the original.",
  ['inputs'],'pairs of values of each kind with arbitrary component texts',
  'Tests rely on equality to compare results and would not notice an equality that ignores a part.',
  ['pash_annotations/util_standard.py',DT],[('standard_eq','pash_annotations/util_standard.py')],['__eq__'])
p('C28','The command-line tool reports the API\'s answers and never overwrites',
  "The command-line tool prints, or saves when asked to, the parsed invocation, the input/output information or the reason there is none, and the parallelizability information, exactly as the library computes them. "
  "Asked to save to a path that already exists it leaves that file unchanged and prints instead.",
  ['inputs','configurations'],'all command lines of annotated and unknown commands up to the bound; target present or absent',
  'The tool has no tests.',
  ['pash_annotations/annotation_cli.py'],[('save_to handling','pash_annotations/annotation_cli.py')],['stdout and the target file'])
p('C29','Access queries list exactly what has that access',
  "For an annotated invocation, asking for its operands with configuration-input, streaming-input, other-input, streaming-output or other-output access returns exactly the operands reported with that access (plain argument strings count as configuration input), in their order, and asking for options with other-output access returns exactly those options. "
  "Adding an access kind to a file name or descriptor keeps the name and the kind, and the queries change nothing.",
  ['inputs'],'all operand and option lists up to the bound over strings, file names and descriptors with every access kind, and what annotating any covered invocation yields',
  'Tests use the queries to compare fixed invocations; most access kinds and all mixtures are absent.',
  [DT+'/CommandInvocationWithIO.py',DT+'/BasicDatatypesWithIO.py'],[('queries',DT+'/CommandInvocationWithIO.py:get_operands_with_config_input')],['get_operands_with_*()','get_options_with_other_output()'])
p('C30','Annotation building blocks assign exactly what they name',
  "The functions an annotation is written with do what their names say: those for all, all but the last, the last, all but the first or the first operand give exactly these operands that role, in whichever order complementary ones are called, operands without one are streaming inputs, and implicit streams are declared exactly when asked for. "
  "Queries for flags, options and the first operand answer from names (never from option arguments) and change nothing, and each function appending a parallelizer appends exactly the one it names.",
  ['inputs','programs'],'all sequences of role assignments the code allows over operand lists up to the bound; arbitrary flag, option and operand names; all lists of appended parallelizers up to the bound',
  'Tests exercise the building blocks only through a few commands; several are used by no command yet are what new annotations are written with.',
  [IOG,IOI,GI,GEN+'/ParallelizabilityInfoGenerator_Interface.py'],[('role setters',IOI),('queries',GI),('appenders',GEN+'/ParallelizabilityInfoGenerator_Interface.py')],['InputOutputInfoGeneratorInterface','ParallelizabilityInfoGeneratorInterface'])
p('C31','Newlines and NULs in tr sets are found in every notation',
  "Asking whether an operand contains a newline (or a NUL) answers yes exactly when tr, reading it as a set, includes that character: written literally, as an escape or octal code, in a range, or in a class. "
  "It never raises, whatever the text.",
  ['inputs'],'all set texts up to the bound, all classes, all octal codes and ranges of them',
  'Tests contain two spellings of newline.',
  [DT+'/BasicDatatypes.py'],[('set reading',DT+'/BasicDatatypes.py:Operand.contains_new_line')],['contains_new_line()','contains_null_char()'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
