# oracle (what the implementation is compared with) and cost of each property
N = {}
def note(id, oracle, more=''):
    N[id] = (oracle, more)
note('C01', "a small-step grammar over tokens (parsemodel.go): classify the token, find the flag, take values by arity; positional tokens go to the cursor of C02. Compared with RawParse's binding and error, and with what contexts of a whole app run report.", "Three grammars with flags of all arities, with and without RawSkipProgramName, DisallowFlagsAfterArgs, RTL.")
note('C02', "the positional cursor of parsemodel.go: for each kind of count whether it must/may/may not take the next token.", "")
note('C03', "as C02, after computing which suffix of arguments can be served by the number of value tokens.", "")
note('C04', "fold over the list of occurrences written for each type directly over Go values (append, replace, merge map).", "Occurrence texts include ones with separators, escapes, empty text; each line is run with the long, the attached, the short spelling and as argument.")
note('C05', "Go's strconv with the exact width, a small recogniser for byte lengths, and tables for booleans; the printed form must read back as the same value.", "")
note('C06', "a character automaton for splitting with escapes; for quoting a small POSIX shell reader.", "")
note('C07', "priority list evaluated over the set of sources present.", "Sources: command line x2, ImplicitValue x2, env x2, file, Implies, initial value.")
note('C08', "generator of the expected event trace from the documented pipeline (see the comment in c08.go), truncated at the injected fault.", "For each configuration the fault-free run is made first, then one run per event with an error injected at that event.")
note('C09', "occurrence list semantics: which calls happen, which value each sees, and the state afterwards.", "")
note('C10', "small model of a chain of commands: a name resolves to the nearest visible definition; uses accumulate; expected event list with all values at each event.", "Lines are extended token by token and not past the first error, so all valid lines up to the depth are covered.")
note('C24', "model of name resolution (nearest definition up the path) and of the fold/count/raw text of a flag in a context.", "")
note('C11', "recursive model of a command tree: split off flags, find by name or alias, else evaluate the list of handlers in effect.", "")
note('C12', "fold over the options in definition order of the constraints that apply to the uses on the line, giving the first one broken.", "The error's text is compared for values containing % and quotes, as such texts pass through format strings.")
note('C13', "patterns: element-wise comparison with the kind of each name; Walk: recursive visit of the tree; FindTarget: nearest definition up the path; filters: conjunction of predicates over the known state of each event.", "")
note('C14', "round trip through the reader, and invariants of a greedy cover (subset, disjoint, maximal, exact entry wins, determinate).", "")
note('C15', "three lists with append and delete, and passes over those not initialized yet; counts of initializers and customizations.", "")
note('C16', "walk over the words giving the command reached, the flag awaiting a value and the flags in scope; acceptance is judged by running the app on the line with the candidate.", "")
note('C17', "a complete model of the words of the screen and of the synopsis, derived from the attributes of the flags, args and commands.", "White space is not compared; sub-commands of an ancestor with required flags are asked for by `--help` in front only.")
note('C18', "the os package applied to a twin directory; recorded calls of file systems that implement one extension each; a pre-order walk of the forest; a line filter for lists.", "All effects stay in a scratch directory that is also the current one, with names that exist nowhere else.")
note('C19', "the positional cursor of C02 applied per operator; a depth-first recursion over the uses with the values; a table of signatures.", "Events read the args both from the context and from the pointer, before and after each yield; every evaluation is done twice.")
note('C20', "fold over the uses on the line (name, pairs, arguments) with the set of known names and arguments; merged maps; a sorted listing.", "")
note('C21', "strconv and net/url, net, regexp, time applied directly per type; a fold over pairs for sequences, with the two-pass matching of names.", "")
note('C22', "a recursive model of the tree over a map of files, variables and report lines; the file system is a strict in-memory one which records changes.", "For each sequence, the fault-free run is made first, then one run per change with that change failing.")
note('C23', "a table of mistakes with their code, name, value, rest and message; the documented rules of Exit; the status and output of the same run in a child process.", "")
note('C25', "a recursive evaluator of terms with a list of deferred terms per timing.", "Each term is run in every pipeline of every kind of target, with plain actions in the others.")
note('C26', "per attribute, the first source that has it, or the union for those that are merged.", "Data and environment names are distinct per source; the storage of slices given is made with spare room and inspected afterwards.")
note('C27', "a twin app whose options are given the text directly; a file system that counts open files and reads two bytes at a time.", "Of several errors on a line, the first one in the order of occurrences is expected.")
note('C28', "a model of the layout of tables whose cells have one line, and for others the words per column.", "Each junction of a format has a mark of its own, so that a wrong one shows. Cells contain separators, wide letters and control codes.")
note('C29', "a table of the codes and a model of the state (in use, detected) changed by flags and actions in order.", "A terminal is opened with /dev/ptmx within the process, so detection is exercised on one.")
note('C30', "the outcome of the scenario as the only one in a fresh process of the checker.", "Scenarios yield to a scheduler of the harness at their points; the schedules of a pair are explored by replaying plans of switches. In the second mode, the hand-over is hidden from the race detector, so it reports every pair of accesses that the library does not order, in the schedule at hand or any other one that is equivalent.")
note('C31', "a reference algorithm that goes through the words one by one.", "One existing test pins that a word may reach past the limit; the break comes before the next one.")
note('C32', "a twin app without binders, whose action obtains the value; a list of the expected calls for several binders.", "The redirects are a fold over the line with what is set directly first.")
note('C33', "an interpreter of the few kinds of parts that templates are made of; the help screen as a nest of its parts; a dump of the data by a template, compared with the tree of commands.", "")
note('C34', "a walk over the tree of commands that keeps the context as two keys, a base value and a deadline, and says what each step of each pipeline finds.", "What flags set on their own context isn't judged, nor is the order of the release of a timeout relative to After actions of the same command.")
note('C35', "the reference grammar of C01-C03, extended with counters the user writes.", "")
note('C36', "a walk over the tree of commands, options, values and their args that lists the events at each timing; a table of which action concerns which method.", "Alias only concerns commands and flags, as its documentation says; a prototype also sets the aliases of a value.")
note('C37', "a twin app with a value of the type given outright, whose action reads it; the number of calls as a function of how the value is given; a fold over the line for options that set others.", "The twin shares the parser with the app, which C05 and C07 judge. The example in the doc comment of BindIndirect uses it from Action, where it can't set the type of the flag, so the flag takes text; only Uses is claimed.")
note('C38', "the whole app run on the same line (which C01 to C05 judge), and for a binding of the user a fold over the map.", "Which of several failing options is reported depends on the order of a Go map, and isn't claimed.")
note('C39', "a twin app which adds the flag with AddFlag, with the attributes worked out by the model; both are run.", "With Accessory0 a prototype among the further actions comes after the category of the owner, which wins; this follows from the order of the actions.")
