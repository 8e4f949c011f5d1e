STD = "Decides the property for every execution within the stated bound, each run on the real code and compared with a reference model; nothing is claimed beyond the alphabet and bound."
ENUM = "exhaustive bounded enumeration of executions of the real code against a reference model"

prop('C01', 'Every command-line token is bound once, in order, to what the grammar says',
 "Splitting a command line into flag and argument occurrences follows one fixed grammar: long, short, grouped, attached (-sv, --s=v) and aliased flags; no, required, optional, list and name-value arities; a lone dash and the empty string are values; -- ends the flags. Every token either appears exactly once, in command-line order, in the occurrences of the flag or argument it belongs to, or the whole parse fails with an error of the matching kind naming what is wrong. Parsing never panics and what a command's context reports as raw values, occurrences and counts is exactly that binding.",
 ['inputs','configurations'],
 "all token sequences up to the depth bound over an alphabet with every token shape, for flags of every arity and several positional layouts, with and without flags allowed after arguments",
 "tests sample a few dozen command lines; the grammar has order- and adjacency-dependent cases (group then value, dash as value, end marker position) that only all short sequences cover",
 ['set.go','arg.go','flag.go','value.go','command.go'],
 [('token loop of the raw parser','set.go RawParse'),('flag arity','arg.go argCounterImpliedFromValue'),('name-value arity','value.go valuePairCounter')],
 ['RawParse result','context Raw/RawOccurrences/Bindings/Seen/Occurrences','error code and name'],
 ENUM, STD)
prop('C02', 'Positional arguments receive exactly the tokens their counts allow',
 "Positional arguments are filled left to right: an exact count takes exactly that many tokens, an optional one at most one, a list up to the next flag, an interspersed list everything but flags, and a take-remaining one everything that follows; tokens that look like flags are only taken by take-remaining arguments or after --. If any argument with an exact count is left short, or a token is left over, the command fails with that error and does not run.",
 ['inputs','configurations'],
 "every layout of up to 3 (thorough: 4) positional arguments over all count kinds and every token sequence up to the depth bound",
 "tests exercise single arguments or a couple of layouts; the distribution depends on the combination of counts and token order",
 ['set.go','arg.go'],
 [('argument cursor','set.go argBinding'),('counters','arg.go discreteCounter, defaultCounter, varArgsCounter')],
 ['RawParse result','context values','error code'], ENUM, STD)
prop('C03', 'Right-to-left binding fills the rightmost arguments with what is available',
 "For a command that binds right to left, the arguments that receive values are the longest run at the right end whose needs (exact counts, or one each) the available value tokens cover; the rest stay empty, or fail if they need values. Flags, the values of flags and -- are never counted as available values; values still bind in command-line order.",
 ['inputs','configurations'],
 "every layout of up to 4 positional arguments and every token sequence with and without flags up to the depth bound",
 "tests only have flagless lines with two layouts; counting goes wrong as soon as flags, -- or mixed counts appear",
 ['set.go'], [('number of arguments to skip','set.go RawParse, countPositionalTokens')],
 ['RawParse result','context values'], ENUM, STD)

prop('C04', 'The value of an option is what its occurrences say, in order',
 "For every value type the value a command sees is the fold of the occurrences on the command line: a scalar or string has the last one, a list, map or file set has all of them in order, a counter counts. The value the option was created with is replaced as soon as it is set, unless merging was asked for, in which case it comes first. Quoting options such as no-splitting change only how one occurrence is split, and the result is the same for every spelling of the flag and for a positional argument.",
 ['inputs','configurations','histories'],
 "all sequences of up to 3 (thorough: 4) occurrences over small sets of values, for 11 value types as flag and as argument, with and without an initial value, for every subset of {merge, no splitting}",
 "the result depends on the sequence of occurrences, the initial value and the options together; tests have one or two occurrences of a few types",
 ['value.go','option.go','flag.go','arg.go'],
 [('reset of the initial value','value.go setValue; flag.go/arg.go nextOccur'),('lists, maps','value.go Set; internal/support')],
 ['Context.Value and typed accessors'], ENUM, STD)
prop('C05', 'Text is converted to exactly the scalar value it denotes, or rejected',
 "For every scalar type a text is accepted exactly when it denotes a value of that type (Go literal syntax for numbers, within the width of the type; true/false/yes/no/on/off/1/0 for booleans; IEC and SI suffixes for byte lengths), and the value seen by the command is exactly the one denoted. Any other text is an error that names the option and the text, and leaves the value unchanged. It makes no difference whether the text arrives by flag, argument, optional value or direct assignment, and printing a value gives text that reads back as the same value.",
 ['inputs'],
 "every string up to length 5 (thorough: 6) over a 10-character alphabet, boundary values of every width in every base, and lists of texts for other types, for 22 types",
 "tests have one valid text per type; widths, bases, suffixes and rejected texts are not sampled",
 ['value.go','value/value.go'], [('conversion','value.go setValue, parse*'),('byte length','value/value.go')],
 ['Context.Value and typed accessors','error text'], ENUM, STD)
prop('C06', 'Splitting honours escapes and quoting round-trips through the shell',
 "Splitting a list, map or name-value text at its separator gives the pieces between unescaped separators, with escapes removed, nothing duplicated or lost and at most the requested number of pieces; so pieces whose separators are escaped and joined split back to the same pieces. Quoting a word or joining several gives text that both a POSIX shell and the library's own splitting read back as the same words. Quoting never panics and leaves words without special characters as they are.",
 ['inputs'],
 "every string up to length 7 (thorough: 8) over 6 characters with every limit; every string up to length 4 (thorough: 5) over 19 shell-relevant characters, and pairs",
 "tests sample a few strings; adjacency of escapes and separators at the ends is what breaks",
 ['internal/support/support.go','cli.go','value.go'], [('SplitList, SplitMap','internal/support/support.go'),('Quote, Join, Split','cli.go')],
 ['result of Quote, Join, Split, SplitList, SplitMap'], ENUM, STD)

prop('C07', 'Where an option gets its value follows one precedence',
 "The value of an option comes from the first of these that supplies one: the command line, its implicit values in order, its environment variables in order, its file, a flag that implies it, its initial value. A source that is missing, empty or not usable is passed over; a lower source never mixes with a higher one, and replaces the initial value unless merging. Actions of the option run when it was seen, or when it was set implicitly and implied actions were asked for; the result does not depend on whether it is a flag, an argument, in a sub-command, or persistent.",
 ['inputs','configurations'],
 "every combination of sources being absent, unusable, or present (two of a kind for implicit values, environment variables and occurrences), also when a source is an action, for 6 value types as flag and argument in 3 placements",
 "tests set one source at a time; precedence is about their combinations",
 ['flag.go','arg.go','option.go','context.go','value.go','action.go'],
 [('implicit values','context.go SetOptionalValue; option.go Implies, ImplicitValue'),('environment and files','flag.go/arg.go implied value, cli.go')],
 ['typed accessors, Seen, Occurrences, implied actions run'], ENUM, STD)
prop('C08', 'Pipelines run in the documented order, and an error stops them',
 "For one invocation, initialization runs from the root down before anything else; then, for each command on the path, its Before pipeline (validators first), that of its options, the actions of the options used, the sub-command or else its own action, and the After pipelines on the way out, each exactly once and never for commands not on the path. Hooks run at exactly the targets below their owner that match their pattern, at the place their timing says. The first error from any of them is what Run returns, and nothing else runs after it.",
 ['configurations','histories','crash points'],
 "apps of up to 3 levels, every subset of pipelines, hooks of every timing and pattern at every level; an error injected at every single event of each run",
 "tests check a few orders in a flat app; a failure at each of the dozens of points and hooks of ancestors are not sampled",
 ['command.go','app.go','flag.go','arg.go','action.go','context.go','option.go'],
 [('pipelines','action.go buildPipeline, defaultXXX'),('hooks','context.go hooksSupport'),('execution','command.go, context.go')],
 ['sequence of events with the path of the context','error returned by Run'],
 "exhaustive enumeration of configurations and fault points, each event trace of the real code compared with a model", STD)

prop('C09', 'The action of an option runs exactly when and as often as specified',
 "The action of a flag or argument runs once per invocation if the option was used, or was triggered, or set implicitly with implied actions on, and otherwise never; with EachOccurrence it runs once per occurrence with that occurrence as the current value and raw text, while every other lookup keeps giving the winning value and total count, also afterwards, and in the context of the action timing. An option marked Exits ends the run successfully right after its action; the mirror flag made by No runs the flag's action with the value false. A panic in an action wrapped in Recover lets the rest run and is then reported as the error of the run, with the panic's text.",
 ['inputs','configurations','fault points'],
 "all sequences of up to 3 (thorough: 4) occurrences of 7 value types; all lines of a flag and its mirror flag split over command and sub-command; all subsets of triggers; all orders and uses of exiting flags; a panic at each pipeline",
 "tests check one or two occurrences of a flag in a flat app; what is visible by other lookups, and errors at each call, are not sampled",
 ['option.go','flag.go','arg.go','context.go','action.go'],
 [('EachOccurrence','option.go eachOccurrenceOpt; flag.go wrapOccurrenceContext'),('No','option.go noOption'),('triggering','context.go triggerOptions'),('Recover','action.go Recover')],
 ['calls of the action with values, raw text and counts','error returned by Run'], ENUM, STD)
prop('C10', 'Flags of ancestors work on the lines of their descendants',
 "A flag may be used on the line of the command that defines it and, unless it is non-persistent, on the line of any descendant that does not redefine its name; anywhere else it is an error and no further command runs. Wherever it is used, by name or alias, the uses add up in command-line order to one value and count that every context down the path reports for that flag. Its Before and After run once, in the command that defines it; its action runs once for each command whose line used it; and a name always means the nearest definition.",
 ['inputs','configurations','histories'],
 "all command lines up to the depth bound over chains of 3 commands with persistent, non-persistent and redefined flags",
 "tests use one persistent flag one level down; interplay of several levels, uses on several lines, redefinition and non-persistence is not sampled",
 ['set.go','context.go','flag.go','option.go'],
 [('binding of flags of ancestors','set.go NewBinding'),('pipelines of options','context.go triggerOptions, triggerOptionsHO')],
 ['sequence of pipelines run with values, counts and flags found by name','error of Run'], ENUM, STD)
prop('C24', 'A context finds options and values by every form of name, the same way',
 "In the context of any command, flag or argument, every lookup (value, raw text, occurrences, seen, flag, argument, context) accepts a name, alias, decorated name, letter, pointer or index and gives the same answer for each of them: that of the nearest definition up the path. The empty name and nil mean the current target, unknown names and indexes give nothing, and asking never panics. Typed accessors agree with Value, and context values set by a command are visible to it and below it only.",
 ['configurations','inputs'],
 "every form of name at every pipeline of every target, for chains of up to 3 commands and every distribution of uses over their lines; context values set at every subset of levels",
 "tests ask one or two lookups by long name in one place",
 ['context.go','lookup.go','set.go'],
 [('lookups','context.go LookupFlag, LookupArg, ContextOf, Raw'),('by alias','set.go actualName'),('typed accessors','lookup.go')],
 ['results of lookups'], ENUM, STD)
prop('C11', 'The named sub-command runs with its tokens; others only if a handler says so',
 "In a command with sub-commands the first argument selects the sub-command by name or alias, which receives all following tokens, and the command's own action does not run; with no argument the own action or else its help screen runs. For a name that does not exist the handlers registered for that command, or else for its nearest ancestor that has any, are asked newest first with the error so far until one substitutes a command or skips; if none does the run fails naming what was typed. An implicit command receives all tokens as if it had been named, and with SkipFlagParsing every token is an argument.",
 ['inputs','configurations'],
 "every list of up to 2 handlers on the app and a sub-command, and every command line up to the depth bound over names, aliases, unknown names and flags",
 "tests try one handler and one line at a time",
 ['command.go','context.go','usage.go'],
 [('dispatch','command.go subcommandCore, tryFindCommandOrIntercept'),('handlers','command.go HandleCommandNotFound, ImplicitCommand'),('default action','command.go ensureSubcommands')],
 ['sequence of handlers, pipelines and actions with their args','error of Run','help shown'], ENUM, STD)
prop('C12', 'Constraints on options are enforced before any action runs',
 "A command whose required option is missing, whose mutually exclusive options were used together, or with an occurrence outside the set of an Enum or rejected by a validator fails, before the action of any of its options or itself runs, with an error that names the option; on any other line it runs. The first constraint broken, in the order the options are defined and their validators were added, determines the error. This holds for flags of ancestors on the line of a sub-command as well, and a missing required option does not prevent a flag on the line that exits.",
 ['inputs','configurations'],
 "every combination of Mutex, Enum, validator and Required over flags and an argument, and every command line up to the depth bound, in one command and split over a command and sub-command",
 "tests check one constraint with one or two lines; combinations, order and sub-commands are not sampled",
 ['action.go','option.go','context.go','error.go'],
 [('validators','action.go Mutex, Enum, ValidatorFunc'),('required','context.go checkForRequiredOption'),('flags of ancestors','context.go triggerPersistentFlagValidators')],
 ['actions run','error, code and name'], ENUM, STD)
prop('C13', 'Paths, patterns and filters select exactly the targets they describe',
 "A pattern matches a path exactly if its elements describe the last names of the path one by one: a name, any command, any flag, any argument or any expression. The path of every context finds its target again from the root, and a path finds a target only if each of its names exists below the one before; walking visits each command once, parents before their sub-commands in order, leaving out those below a command that asked to skip and stopping at the first error. Conditional and asserting actions run exactly in contexts for which every filter mode, timing or pattern they combine holds.",
 ['inputs','configurations'],
 "all paths and patterns up to the length bound; all trees of up to 5 commands with every result of the visitor; every filter at every pipeline of every target",
 "tests match a dozen patterns and walk one tree; combinations of modes and contexts are not sampled",
 ['context.go','filter.go','action.go'],
 [('patterns','context.go matchField, contextPathPattern'),('walk and find','context.go walkCore, FindTarget'),('filters','filter.go Matches; action.go IfMatch, Assert')],
 ['results of Match, FindTarget','contexts visited','actions run'], ENUM, STD)
prop('C14', 'Options, timings and filters survive their text; feature sets are exact',
 "Every combination of options and of filter modes, every timing, and every number in hexadecimal or octal notation is written as text, also as JSON, that reads back as the same value, and different options have different names; lists of names may be in any order and separated with spaces. A feature map runs, for a set of features, actions for disjoint parts of the set only, leaves out no action that still fits, uses an exact or combined entry in place of those for its parts, and always in the same order.",
 ['inputs','configurations'],
 "all combinations of options (by size bound when quick) and filter modes; all feature maps over 4 bits and all sets",
 "tests convert each single option once; combinations, and maps whose keys overlap, are not sampled",
 ['option.go','filter.go','action.go','value/value.go'],
 [('text','option.go MarshalText; filter.go; action.go Timing'),('feature maps','option.go FeatureMap; filter.go decompose')],
 ['texts','values read','actions run'], ENUM, STD)
prop('C15', 'Initializers can add, remove and rename flags, args and commands',
 "While an app initializes, the initializers of the app and of any flag, argument or sub-command can add, remove and rename flags, arguments and sub-commands, in any order: those there at the end are exactly the ones that resulted, in order, each initialized exactly once, customized under its old and new name, and usable on the command line; a command made with the same slice as another one isn't affected by the other's changes. Names that are missing, not valid or used twice within a command are an error. After initialization every such change is refused with an error and changes nothing.",
 ['configurations','histories'],
 "every sequence of up to 3 (thorough: 4) changes distributed over 5 initializers; every choice of names; every change at every later pipeline; two commands that share a slice, with every pair of up to 2 changes and room in the slice",
 "tests add or remove one thing from the initializer of the app; changes made while iterating over what is changed are not sampled",
 ['command.go','context.go','flag.go','arg.go'],
 [('initialization','command.go initializeFlagsArgs, initializeSubcommands, finalizeArgsAndFlags'),('changes','context.go updateFlags, updateArgs, updateSubcommands')],
 ['flags, args and commands of the app','initializers and customizations run','use on the command line'], ENUM, STD)
prop('C16', 'Shell completion offers exactly what the app accepts there, and runs nothing',
 "For every line and incomplete token, each candidate continues the token and is accepted by the app in its place; every visible flag in scope, sub-command name or alias and every value that fits is offered (for a single match, the flag itself), with its help text, and hidden ones never are. A request through the environment ends with exit code 0 and a response of whole four-line records for the same candidates, whatever the word list and index are and even if flags or arguments are required, and it runs no action. The generated script uses the variable the app reads.",
 ['inputs','configurations'],
 "every line of up to 2 (thorough: 3) words of 17 with each of 30 incomplete tokens in 8 variants of a three-level app, and every candidate run in turn",
 "tests complete about 20 lines by calling Complete; the response to the shell, sub-command flags, required options and hidden commands are not sampled",
 ['completion.go','completion_zsh.go','command.go'],
 [('candidates','command.go defaultCommandCompletion, completeSubCommand, findSolitaryMatch'),('requests','completion_zsh.go; command.go triggerRobustParsingAndCompletion')],
 ['candidates','response text','exit code','actions run'], ENUM, STD)
prop('C17', 'The help screen and synopsis describe exactly what the command accepts',
 "The help screen of a command, however it is asked for, names its path, synopsis, description, every visible flag with its names, placeholder and help, grouped by category, every visible sub-command with aliases, the visible flags of all ancestors and the descriptions of its args, in definition or sorted order, and nothing that is hidden. The synopsis gives required and optional flags and args as such, separated by spaces. Asking for help runs no action, works without the required flags and args of the command itself, exits with code 0, and fails for a command that does not exist.",
 ['configurations','inputs'],
 "all sets of up to 3 flags, of args in every order, and of sub-commands from pools that cover each attribute; every way of asking; every help text of up to 4 parts",
 "tests compare some screens of one app; hidden, required, sorted, grouped and right-to-left items are not combined",
 ['usage.go','templates.go','command.go','internal/synopsis'],
 [('screen','templates.go; usage.go displayHelpScreenAction'),('synopsis','command.go newCommandSynopsis; internal/synopsis'),('placeholders','usage.go parseUsage')],
 ['help screen','text of Synopsis','exit code','actions run'], ENUM, STD)
prop('C18', 'Files, lists of files and MustExist act on the file system of the app',
 "Every operation of a File or FS reaches the file system of the app with the same name and arguments and returns its result; what a file system does not provide is done by opening the file, or is an error that names the path. A directory file system acts as os does on the joined path, the file named dash reads the input and writes the output of the app in every place and mode, and files opened with a context fail once it ends. FileSet reads, walks and stops exactly as its list and the trees say, and MustExist and WorkingDirectory apply to every named file wherever its option is given, before the action.",
 ['inputs','configurations','histories','faults'],
 "all operations against all kinds of file systems with failures; all sequences of 2 (thorough: 3) operations; all lists, trees, stopping points, places and sources up to the bounds",
 "tests use one fake file system that provides everything; partial file systems, buffers as input and output, and MustExist on other than a flag of the app are not sampled",
 ['file.go','option.go','context.go','app.go'],
 [('file systems','file.go fsExtensionWrapper, dirFS, defaultFS'),('lists','file.go FileSet'),('MustExist','option.go mustExistOption, workingDirectoryOption')],
 ['calls on the file system','contents, errors and directory trees','files visited','working directory'], ENUM, STD)

prop('C19', 'Expressions parse, evaluate and describe their operators as defined',
 "Each operator of an expression takes the args that fit its counts up to the next operator; anything else is an error of the documented kind and the action does not run. Evaluating sends every value through the uses of operators in the order of the line, depth first, each use seeing exactly its own args at every moment, and the first error ends it. Bindings and Walk list the uses in order, all documented signatures act as evaluators, hooks of every operator run once, and the help screen lists the visible operators by category.",
 ['inputs','configurations','histories','faults'],
 "all lines up to 4 (thorough: 5) tokens for every layout of args; all pipelines up to 4 operators with a fault at each event; all subsets of operators on the help screen; two expressions that share a slice",
 "tests try single lines; several instances of an operator with optional args, markers like --, faults in the middle of a pipeline and categories without help are not sampled",
 ['extensions/expr','option.go','templates.go'],
 [('parsing','extensions/expr/expr.go parseExpressions'),('pipeline','extensions/expr/expr.go evaluateCore, boundExpr'),('help','extensions/expr/templates.go; templates.go expressionTemplate; option.go sortedExprsOpt')],
 ['error of the line','values and args at each event','operators of Bindings and Walk','help screen'], ENUM, STD)
prop('C20', 'Provider values name a provider and its arguments; registries check them',
 "A provider flag holds the name and the arguments given by all of its uses and by its argument flags, with the splitting rules of Map; a registry in scope rejects unknown names and arguments, names the same one on every run, and lists its providers in order. Creating a provider merges its defaults with the given arguments exactly once, using the factory, the discrete value or the type as documented, and reports unknown names.",
 ['inputs','configurations','histories'],
 "all lines of up to 2 (3) uses over 13 texts for every form of the value, registry, place and argument flag; all sets of up to 3 names listed; all combinations of creation inputs",
 "tests use one registry and one line each; arguments spread over several flags, validation by the argument's own flag, and registries in other places are not sampled",
 ['extensions/provider'],
 [('value','extensions/provider/provider.go Value, SetArgument'),('registry','extensions/provider/registry.go, provider.go validators and New'),('listing','extensions/provider/provider.go ListProviders')],
 ['error of the run','name and args after the run','text of the value','listing','the created provider'], ENUM, STD)
prop('C21', 'Structures are initialized by name-value pairs with documented conversions',
 "Each pair given to a structure flag sets the field of that name (exact names first, then ignoring case) to the converted text and leaves all others alone; a text not in the type's syntax is an error which leaves the structure as it was. Later pairs replace earlier ones, options that are explicitly empty turn conversions off, and the text of a structure of strings reads back as the same structure.",
 ['inputs','histories','configurations'],
 "23 types of fields x 50 texts; all sequences of up to 3 (4) assignments over 18 texts in 32 configurations; texts over 8 strings",
 "tests set a few fields once; widths, sequences in which a list replaces another, and combinations of splitting and options are not sampled",
 ['extensions/structure','internal/support'],
 [('decoding','extensions/structure/structure.go Decode, Value.Set'),('hooks','extensions/structure/*.go'),('splitting','internal/support ParseMap')],
 ['fields after each assignment','error','text'], ENUM, STD)
prop('C22', 'Templates generate the described files, and dry runs only report',
 "Running a template creates exactly the files its tree of generators describes, in the directory in effect with names expanded by the data set so far, each one reported as create, overwrite or identical as its contents did change. A dry run changes nothing and gives the same report; a failure of a generator or of any file operation is returned, stops the generation, and leaves no file open.",
 ['inputs','configurations','faults'],
 "all lists of up to 2 (3) of 16 file generators x names x places x file systems x real/dry; all sequences of up to 3 (4) of 14 generators; each change failing once",
 "tests generate single files at the top; directories, combinations of generators, dry runs and failing operations are not sampled",
 ['extensions/template'],
 [('files','extensions/template/file.go'),('context','extensions/template/context.go'),('tree','extensions/template/dir.go, template.go')],
 ['the file system','the report','error of the run','order of changes after a fault'], ENUM, STD)
prop('C23', 'Errors carry the documented code, name, message and exit status',
 "Whatever is wrong on a command line, the run returns a ParseError with the code of that kind of mistake, the name of the option, the value and the arguments left, status 2, and no action runs; of several wrong values it is the same one each time. An error returned anywhere in a run is what RunContext returns and what the exit handler gets as message and status (Exit's operands as documented, 1 for other errors, nothing printed for status 0). Actions that come too late give an InternalError which says where.",
 ['inputs','faults','configurations'],
 "all lists of up to 3 (4) operands to Exit; every kind of error in every place of a run, also in a process of its own; 60 wrong fragments in all places of a line",
 "tests look at single messages; positions in the line, exit statuses of each kind in each place, and what reaches the exit handler are not sampled",
 ['error.go','app.go','set.go','context.go'],
 [('Exit','error.go Exit, exitCore'),('parse errors','error.go, set.go RawParse and ApplyTo'),('exit status','app.go exit, defaultExitHandler'),('late actions','context.go internalError'),('current app','app.go provideCurrentApp')],
 ['fields and text of the error','calls of the exit handler','status and output of a process'], ENUM, STD)
prop('C25', 'Actions compose: pipelines, middleware, timings, Setup and error handlers',
 "Every composition of Pipeline, middleware, SuppressError, Recover, IfMatch, Assert, At and Setup runs its parts exactly when and as often as their definitions say: parts in order until one fails, middleware around all that follows it in its pipeline (or in the action of its target when added earlier), deferred actions at their timing before those of the user, and too late ones as an error unless optional. Whatever is composed, the first error not suppressed is the error of the run. Pipelines and setups derived from one another do not affect each other, and every form of function documented for ActionOf is called with what it asks for.",
 ['configurations','faults','histories'],
 "all terms of up to 4 (5) nodes over 11 actions, 15 wrappers and 2 kinds of pipeline in each pipeline of app, command, flag and arg; all setups over 6 kinds of parts; all derivations of up to 3 (5) steps",
 "tests run a handful of flat pipelines; nesting of middleware, timings and error handlers, and storage shared by derived pipelines are not sampled",
 ['action.go','context.go'],
 [('composition','action.go cons, ActionPipeline, Setup'),('timing','context.go act; action.go actionPipelines.add'),('wrappers','action.go SuppressError, Recover, IfMatch, Assert'),('forms','action.go ActionOf')],
 ['sequence of actions with their timings','error of the run','panics'], ENUM, STD)
prop('C26', 'Prototypes fill in what is not set, and attribute actions set it',
 "A Prototype gives a flag, arg or command each attribute that it does not have yet, adds its aliases, environment variables, data and options to those there, and leaves everything else as it is; of several prototypes the first one wins, a prevented setup makes it do nothing, and an expression operator keeps the texts which the prototype lacks. Names, aliases, variables, files, values and counts given this way work like those written in the target, and actions such as Named, HelpText, Data or Alias set exactly their attribute. Targets which are given the same prototype, slices or data do not affect each other, and what they were given is not changed.",
 ['configurations','histories'],
 "all assignments of 7-14 attributes to target and prototype with up to 2 (3) deviating from uniform; effects of 6 attributes in all combinations; up to 3 (4) operations on two targets that share storage; up to 2 (3) attribute actions",
 "tests copy one attribute to an otherwise empty target; combinations, sharing and the effects of copied attributes are not sampled",
 ['action.go','context.go','extensions/expr'],
 [('prototype','action.go Prototype.Execute and copy functions'),('setters','context.go SetName, SetData, AddAlias, RemoveAlias, valueTarget'),('prevention','context.go SkipImplicitSetup')],
 ['fields of the target','getters of the context','acceptance of names and aliases','values from files and variables'], ENUM, STD)
prop('C27', 'Values taken from files or transforms equal the text given directly',
 "A flag or arg that refers to files, or has a transform, ends up with exactly the value its text would have had, for each occurrence, in every spelling, for all types of values, with and without merging; the name before the equal sign of a pair is never affected. A file that does not exist or fails while it is read is the error of the run, and after the run every file opened is closed while standard input and output stay open.",
 ['inputs','configurations','faults'],
 "9 types x 8 transforms x flags and args with all lines of up to 2 (3) occurrences over 14 texts; 4 kinds of pairs over 12 texts; default file systems",
 "tests read one file into one flag; several occurrences, other types, values with delimiters, failing reads and open files are not sampled",
 ['action.go','value.go','file.go','set.go','option.go'],
 [('transforms','action.go transformFiles, Transform, ValueTransform'),('setting','value.go SetData; set.go rawApplyOccurrence'),('options','option.go FileReference, AllowFileReference')],
 ['value after the run','error of the run','files left open'], ENUM, STD)
prop('C28', 'Tables show the cells that templates put into them',
 "A table written with the table template functions shows the headers, rows and footers in their places whatever the order of the calls, each cell in its column with the alignment, borders and separators of the format; the words of every cell can be read back from it, also when it is wrapped, and a table without formatting has exactly the cells separated as documented. Calls in the wrong order are an error or show nothing, never a crash. A help screen with tables has the same words as the one without.",
 ['inputs','histories','configurations'],
 "10 formats x tables of up to 3x3 with up to 4 (6) cells out of 6, headers and footers; wrapped 2x2 tables over 6 texts at 5 widths; sequences of up to 4 (5) calls; help screens of 20 apps",
 "tests render a table or two of each format; ragged tables, orders of calls, separators within cells and narrow terminals are not sampled",
 ['extensions/table','templates.go'],
 [('tables','extensions/table/table.go'),('help screen','extensions/table help template; templates.go')],
 ['text of the table','error of the run'], ENUM, STD)
prop('C29', 'Color is written when it is in use, and only then',
 "Control codes are written if and only if color is in use, which is decided by the last flag, action or detection of the terminal, NO_COLOR and TERM; then each function of the templates and writers writes the codes of the color or style that it names around its text and restores it, and otherwise exactly the text, and unknown names are errors. Wrapped writers, buffers, flags of the color extension in any combination of features, and all parts of the help screen agree about whether color is in use.",
 ['inputs','configurations','histories'],
 "all template functions and compositions of two; 17 feature sets x lines of up to 2 (3) of 10 flags x 4 kinds of outputs (including a terminal) x 4 environments; actions at 4 places; sequences of up to 5 (6) writer operations; help screens",
 "tests call one function with color forced on; combinations of flags, environment, outputs and places are not sampled, and no test has a terminal",
 ['extensions/color','context.go','usage.go','templates.go'],
 [('functions','extensions/color/color_templates.go'),('flags','extensions/color/color.go, mode.go'),('writers','usage.go NewWriter, SetColorCapable'),('detection','context.go SetColor, AutodetectColor')],
 ['bytes written','ColorCapable','error of the run'], ENUM, STD)
prop('C30', 'Runs of apps in a process do not affect each other',
 "An app does exactly what it does as the only one in a process (result, output, errors, order of actions) after any other apps have run, and while another one runs at the same time, whichever way their steps interleave. That holds for apps that share actions, prototypes, setups, formats or evaluators as package variables, and no two apps access the same memory without anything that orders them.",
 ['schedules','histories'],
 "39 scenarios: all sequences of up to 2 (3); all pairs in all schedules with up to 2 (3) switches, and with up to 1 (2) under the race detector",
 "tests run one app per case and never two at the same time; what one leaves behind for another is not visible to them",
 ['app.go','context.go','templates.go','completion.go','extensions'],
 [('shared state','package variables of the library and its extensions'),('templates','app.go ensureTemplates; completion.go newSourceTemplate'),('formats','extensions/table')],
 ['outcome of each app compared with that in a fresh process','races'], 'enumeration of schedules and histories on the implementation with happens-before race detection', STD)
prop('C31', 'Wrapped text keeps its words, its lines and its width',
 "Text that is wrapped for the help screen or by the template functions keeps its words in their order with the space between them or a line break, its own line breaks and the indentation of its lines; a line ends before the first word that would start past the width given by the terminal. Descriptions are displayed the same whether they are text, Stringers, buffers or templates.",
 ['inputs','configurations'],
 "all texts of up to 6 (8) tokens out of 7 at limits of 0 to 13 with 3 indents; 7 texts at 73 widths of the terminal at 10 places",
 "tests wrap one paragraph at one width; runs of space, escape codes, empty lines and words longer than the line are not sampled",
 ['internal/support','templates.go','usage.go','app.go'],
 [('wrapping','Wrap'),('templates','app.go Wrap and HangingIndent functions'),('width','GuessWidth')],
 ['text written'], ENUM, STD)
prop('C32', 'Bound functions get the values of what their binders stand for',
 "A function in bind.Call, Action or Evaluator is called once in the action timing with the values its binders stand for: the flag or arg by name, alias, index or being the current one (as if obtained from a flag or arg of the same type), constants, values from the context or functions; and not at all once a binder fails, which is the error of the run. A flag or arg without a value gets one of the binder's type, and no other flag or arg changes, however many targets share the action. Redirect and Indirect set the target to what their own flag would have made of the text.",
 ['inputs','configurations'],
 "29 types x 16 places x 4 ways x 2 forms x texts; 1..3 binders of 9 kinds x 5 targets x 8 variants; actions shared by any ordered subset of 6 targets; lines of up to 3 (4) flags that redirect",
 "tests use one binder of a type at one place; sharing, several binders, failures and types given by For are not sampled",
 ['extensions/bind','action.go'],
 [('binders','extensions/bind/binder.go'),('implied targets','extensions/bind/binder.go, func.go'),('redirects','extensions/bind: Redirect, Indirect')],
 ['values passed to functions','order of calls','error of the run','types of the values of options'], ENUM, STD)
prop('C33', 'Templates and functions are those that were last registered',
 "An app has one set of templates and functions, wherever actions register or use them: executing a template renders it with the templates (also nested ones and those called by Execute) and functions last registered under the names it uses; missing ones and failing functions are errors, and text that is malformed changes nothing. Each part of the help screen, the version and the license gives way to the template registered with its name, and only that part. The help template is given the names, texts, data, flags, args, sub-commands, categories and lineage of the command it is for.",
 ['histories','inputs','configurations'],
 "sequences of up to 4 of 20 operations at 9 distributions; up to 2 (4) parts of the help screen; 256 x 3 x 6 x 2 configurations of data; 48 of version and license",
 "tests register one template and execute it; replacing nested ones, order, errors and places are not sampled",
 ['usage.go','templates.go','context.go','app.go'],
 [('registration','usage.go RegisterTemplate, RegisterTemplateFunc'),('execution','usage.go ExecuteTemplate, Template; context.go withExecute'),('data','templates.go commandAdapter, flagAdapter')],
 ['output','errors','words of the help screen'], ENUM, STD)
prop('C34', 'Values, timeouts and signals reach what runs below them and nothing else',
 "What ContextValue, SetContext, Timeout or HandleSignal sets on a command is seen by the rest of that command, its flags and the commands below it, the nearest and latest one winning, and by no other command. The context given to Run governs every step: its values are there, its cancellation is seen at once, the earliest deadline applies, signals that are handled end the context, and timeouts and handlers are released by the end. The current app is the one whose step runs, also while apps run one another, and is restored however the run ends.",
 ['histories','configurations','schedules'],
 "pairs (triples) of 150 changes on a tree of 5 commands at every leaf; cancellation at every step; every subset of two signals; pairs of timeouts; three nested runs",
 "tests set one value on one command and look at a few steps; siblings, order, nesting and cancellation in between are not sampled",
 ['context.go','action.go','app.go','command.go'],
 [('context of a command','context.go SetContext, newChild'),('timeouts and signals','action.go Timeout, HandleSignal, cancelAfter'),('current app','app.go provideCurrentApp')],
 ['values, deadline, error and Done of the context at each step','CurrentApp'], ENUM, STD)
prop('C35', 'A counter decides how many values its argument or flag takes',
 "An argument, or a flag whose value has a counter, takes tokens until the counter signals the end, which leaves the token to the next argument; every counter that is reached is finalized, and an error from taking or finalizing is the error of the parse. Flags are offered as possible flags and parsed as flags if refused. ArgCount, OptionalArg and NoArgs are counters with exactly the documented counts.",
 ['inputs','configurations','histories'],
 "27 counters given in three ways x built-in neighbours x all token sequences up to length 3 (4), binding from the left and the right; ArgCount from -5 to 4 against every sequence of 4 (6) tokens",
 "tests use one fake counter; what a counter signals, when, and who takes the token then is not sampled",
 ['set.go','arg.go','flag.go','value.go'],
 [('offers to counters','set.go SetArg, take, instanceTake'),('built-in counters','arg.go ArgCount')],
 ['RawParse result','context values','errors'], ENUM, STD)
prop('C36', 'Values have pipelines of their own which run along with those of their owner',
 "A value provided to ProvideValueInitializer by a flag, arg or command, or by its own Initializer, has a context <-name> below its owner in which its action runs: during initialization after the owner and its options, before the run after them, in the action after that of the option and before that of the command, and after the run; each once and in the order provided, with the pipelines of its args (and their values) before it in the action and after it otherwise. Hooks of its owners find it by path. The run ends with the error of the first that fails. What actions and prototypes set is passed to the methods a value has for it, and to nothing else. It is found by name on its owner only.",
 ['histories','configurations','fault points'],
 "apps and sub-commands with values on any target, every subset of timings, args and nested values, hooks, every event failing; 32 actions x 16 kinds of values x 5 places; sequences of up to 3 of 4 names",
 "tests count the calls of one value of one arg; the order among several values, args, owners and hooks, and failures, are not sampled",
 ['action.go','context.go','command.go'],
 [('provide','context.go ProvideValueInitializer, LookupValueTarget'),('order','action.go defaultCommand, defaultOption, defaultValue; context.go triggerValueTargetsHO'),('what is set','context.go valueTarget; action.go Prototype.copyToValue')],
 ['order of events','context of each event','calls of setters','errors'], ENUM, STD)
prop('C37', 'Functions bound to options with the Bind functions are called with the value',
 "Bind, BindContext and BindIndirect in the Uses pipeline of a flag or arg give it a value of the type of the function when it has none (bool with a constant), and call the function exactly once, in the action, if the option is used (once per occurrence with EachOccurrence; for implicit values, with ImpliedAction), with the value that was parsed or the constant, and what the context or the named option holds. It isn't called for text that isn't accepted, and its error is that of the run. Options that share the action each have their own value. FlagSetup, ArgSetup and CommandSetup call their function exactly when they run in initialization, the target is (or, for commands, is in) one of the kind, and setup wasn't prevented by it or what contains it.",
 ['inputs','configurations','fault points'],
 "29 types x 5 places x 9 ways to be given x 3 pipelines, failing and not; an action shared by every ordered subset of 5 options; lines of up to 4 (5) tokens over flags that set others; setup functions from 4 pipelines of 6 targets x 14 ways to prevent setup",
 "tests bind one function to one flag; types, sources, sharing and failing calls are not sampled together",
 ['action.go','option.go','internal/support/bind_support.go'],
 [('binding','action.go bindThunk'),('types','internal/support/bind_support.go BindSupportedValue'),('setup','action.go FlagSetup, ArgSetup, CommandSetup; context.go SkipImplicitSetup')],
 ['calls and their order among the other pipelines','values','errors'], ENUM, STD)
prop('C38', 'The low-level parser and its bindings give what the app gives',
 "RawParse with NewBinding over flags, args and the flags of a parent, followed by BindingMap.ApplyTo, fails exactly when the app fails on the same line, with the same error, and otherwise gives each option the value, the raw tokens and the occurrences that the app gives. The accessors of the map (Raw, RawOccurrences, Bindings, BindingNames) agree with its contents, and the arguments passed aren't modified. A user-written Binding gets the same map as the one of the library; ApplyTo sets each of its options once per occurrence, in order, with transformed data if it has a transform and without the name otherwise; it skips options the binding doesn't know and stops at the first failure of a state or a transform, which is the error.",
 ['inputs','configurations','fault points'],
 "lines of up to 3 of 20 tokens (4 of 13) over 7 flags and 2 args in 2 shapes x right-to-left x flags after args; states that fail at each occurrence",
 "tests apply a few maps; errors in the middle, several occurrences, inherited flags and bindings of the user aren't sampled together",
 ['set.go','context.go'],
 [('parse','set.go RawParse'),('apply','set.go BindingMap.ApplyTo'),('accessors','set.go BindingMap.Raw, RawOccurrences, Bindings, BindingNames'),('binding','set.go bindingImpl')],
 ['errors','values of each option','raw tokens and occurrences','calls of the states of a binding'], ENUM, STD)
prop('C39', 'An accessory flag is the flag of its prototype next to its owner',
 "Accessory and Accessory0 in the Uses pipeline of a flag or arg add to its command a flag that has what the prototype and then the further actions set, the category of the owner unless the prototype has one, the name of the owner in its data as DependentFlag, and the name given: as is, that of the prototype if blank, or for - the name of the owner, a dash and that of the prototype. In runs and in help it is the same as such a flag that is declared outright: it sets the value that it accompanies and no other, also when several owners of the command have accessories.",
 ['inputs','configurations'],
 "4 types of values x flag or arg x app or sub-command x 4 names x 3 ways of category x 4 lists of actions x Accessory or Accessory0 x 1 or 2 owners; lines of up to 2 (3) of 10 tokens",
 "tests add six accessories and check attributes; runs with several owners, names and categories are not sampled together",
 ['action.go','file.go','value.go','extensions/provider/provider.go'],
 [('accessory','action.go accessory, Accessory, Accessory0'),('prototypes','file.go RecursiveFlag; value.go AllowFileReferencesFlag; extensions/provider/provider.go ArgumentFlag')],
 ['flags of the command and their attributes','help','values','errors'], ENUM, STD)
