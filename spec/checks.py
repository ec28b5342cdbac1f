"""What each claimed check is: technique and the note on what it establishes."""

TS = "typestate dataflow analysis over the syntax tree and call graph (joins, fixpoints at loops, no solver)"
TM = ("comparison of statically extracted path summaries with the documented result on a finite abstract domain that separates "
      "everything the conditions can look at")

CHECKS = {
    "C01": (TS + "; reachability over the resolved call graph", "Every path of the match driver, of the command class's match and of the completion callback with the "
            "trial flag set, loops to a fixpoint: none reaches a routine that runs actions, asks for a real match, or writes the caller's argument list. Routines "
            "of tokens and of the grammar tree are covered by the call graph."),
    "C02": (TS, "Every path of the match driver in a real match, loops to a fixpoint. At every call that runs actions: the sequence was found to end where the input "
            "may end, it is the only one in its list, and nothing ran before. At every exit: the response says success exactly when actions ran. Which sequences "
            "are candidates at all (grammar derivation) is outside this check."),
    "C03": (TS, "Every path of every one-shot entry point, with all loops taken to a fixpoint; the status on each exit is "
            "compared with what the path knows about the response. An exit whose status cannot be resolved is counted as "
            "undecided and raises no alarm."),
    "C04": (TS, "Every path of the interpreter loop to a fixpoint, with errors injected at every tokenizing, matching and "
            "nested-context call. Writing a diagnostic is assumed not to fail."),
    "C05": (TS, "Every path of the loop and of the one-shot entry points to a fixpoint, with an error and a cancellation injected at "
            "every await and user hook; on each exit the grammar stack, interpreter stack, running flag and exit flag are compared "
            "with their values at entry."),
    "C06": (TS, "The routine that combines both results is analysed for every pair of results, with fallback on and off, trial and "
            "real; each cell of the resulting table is compared with the required outcome."),
    "C07": (TS, "Every path of nested-context set-up, run and teardown to a fixpoint, with an error and a cancellation injected at "
            "every await and hook; on each exit the context stack and the parent's terminal state are compared with those at entry."),
    "C08": (TS, "Every call sequence of adding file lines, taking the next line and prompting, from every shape of the stack of pending "
            "lines up to a few files and lines (kept apart, then widened); each line handed out is compared with the one that is due."),
    "C09": (TS + "; " + TM, "Each path summary of the line assembly is compared with the documented result for every combination of what "
            "the conditions can distinguish about a line and its continuation."),
    "C10": (TS + "; information flow of the text read", "Every path of prompted input, from files and from the terminal, masked and shown: "
            "what each output call is given is traced back to the text read, and the mask requested of the reader is recorded."),
    "C13": (TS, "Every path of the three wrappers, with a plain and with an asynchronous routine that may answer anything or raise: what is passed, whether it is waited "
            "for, what is returned and what leaves the wrapper. The matcher is analysed with every direct call of a token routine raising."),
    "C14": (TS + "; key injectivity on symbolic terms", "Every read and write of the two caches on every path: the key must determine the request (terms that forget part "
            "of it are rejected), writes must carry the computed value, and string conversions are compared pairwise over all ways of reading a text. Every path "
            "of the emptying routines and every exit of the matcher is checked for the bound."),
    "C18": (TS, "The places that define names (grammars, token classes, tokens, parameters) are analysed with definitions whose names are unknown but known to be "
            "equal or different: with equal names no path may end in success, with different ones every definition must be there."),
    "C19": ("abstract interpretation of the grammar's reduction actions over symbolic elements", "The reduction actions for repetitions are followed with unknown elements and small bounds: the structure they "
            "make is read as a range of counts and compared with the bounds written. Larger bounds go through the same statements; the witnesses are chosen on both sides "
            "of every comparison the code makes with a bound."),
    "C20": ("abstract interpretation of the copy routines over symbolic parts", "Every class of element is copied with unknown parts and unknown help, parent and repetition: each attribute that matters is traced "
            "into the copy, and the copy may share no part that holds state. A repetition is followed until its copies are made."),
    "C21": ("abstract interpretation of the derivation of 'required' over symbolic parts", "Every class of block is asked whether it is required, for every combination of required and optional parts up to three, "
            "first and repeated questions; the answer is compared with the rule of that kind of block."),
    "C27": ("abstract interpretation of argument binding with unknown names and values", "The reduction actions for arguments and parameters, and the binding routine on every mix of positional, named and missing arguments for up to three "
            "parameters with and without defaults; names and values are unknown, only which of them are equal is fixed."),
    "C22": ("abstract interpretation of action code over unknown variables and values", "Sequences of assignments and calls over named, numbered and parameter variables are "
            "followed through the action interpreter; variables and values are unknown, only which of them are the same is fixed. What each call is given is compared "
            "with the assignments before it."),
    "C15": ("lexer model read from the source, with abstract interpretation of the rule and grammar actions", "The regular expressions of the tokenizer in the order ply tries them and the summary of every "
            "rule's action on an unknown lexeme; every line of up to four (thorough: five) characters over one character of each class the expressions or the documentation tell apart, and longer ones over "
            "the main classes, is compared with the documented tokens. Grammar actions are followed on unknown tokens along the derivations of up to three tokens."),
    "C17": ("lexer model read from the source, with abstract interpretation of the rule and grammar actions", "The lexical rules of grammars and actions: words around every keyword, all short words, numbers "
            "in every notation, comments and line ends between all pairs of lexemes. The value of a number is the term the grammar action gives for an unknown lexeme."),
    "C16": ("abstract interpretation of the two conversions into path summaries over an unknown text, composed and decided per character pattern",
            "Every path of both conversions, with an unknown text whose pieces stay symbolic: the results are chains of replacements on the pieces; the composition is compared with the identity "
            "for every pattern of up to three characters over the characters either conversion mentions. A replacement looks at no more than two neighbouring characters."),
    "C30": ("abstract interpretation of the one-shot routine into a path summary over unknown arguments", "Lists of up to three unknown arguments: the line built on every path is a term "
            "over the arguments; split by the documented rules it must give the arguments back, for every combination of kinds of argument."),
    "C31": ("abstract interpretation of the grammar walk with unknown parts", "Rules of every combination of block kinds, two and three levels deep, whose parts have unknown names and may or may not be "
            "optional: the walk is followed from the start over every beginning of a line, and what it offers is compared with the derivations of the rule. A result that depends on something the "
            "analysis does not know is counted as undecided. Deeper rules are walked by the same routines, one level at a time."),
    "C34": ("abstract interpretation of rule entry and exit over unknown variables and values", "Scripts of entering and leaving rules and references, one and two levels deep, with actions inside and after "
            "them; what the calls see is compared with the documented scoping. Variables and values are unknown."),
    "C35": ("abstract interpretation of the execution of a match with unknown token values", "Rules of every pair of block kinds with actions around every element: the derivations of up to five tokens are executed "
            "through the execution routine; the calls made, their order and the numbered values are compared with the nesting of the rule."),
    "C36": ("abstract interpretation of the semantic actions over derivation trees of the grammar's own productions", "The productions are read from the parser class; for rules and whole grammars "
            "enumerated by structure the derivation is computed and the actions are followed bottom-up with unknown names and codes; the structure that results is compared with the one written."),
    "C37": ("abstract interpretation from the declaration's productions to the token routine", "Declarations with every kind and mix of arguments are followed through the grammar's semantic actions and the routine that makes tokens, "
            "for every place the class can come from and for classes that fail; what the class is given is compared with the declaration. The match driver is followed over rules written with a text and with a token of the same name."),
    "C38": ("abstract interpretation of the completion callback and the formatter", "The formatter is summarised over unknown texts and help strings and the summary compared with the definition for every kind of "
            "offer. The callback is followed from the state the constructor leaves, over sequences of requests, for every form of result of matching (unknown offers) and every relation between the edit line, the "
            "last word and its completion; what is matched, formatted, inserted and answered is judged at each path's end."),
    "C39": ("abstract interpretation of the constructor over witness class hierarchies with symbolic texts", "The constructor is followed for eleven hierarchies (chains, classes without text, several bases, "
            "diamonds, other classes among the bases) and 33 settings, and for contexts of up to three parents; the class table answers what the classes are and each text is a distinct symbol. The symbols "
            "in the generated grammar are compared with those due, in number and order."),
    "C40": ("abstract interpretation of the command interpreter's matching routine as a typestate over the profiler", "The routine is followed from the states its own switches leave, for every setting, trial and real "
            "matching, and the switch thrown during the match; the engine's matching returns or raises and a profiler starts or refuses. Number and arguments of the matches, the result, the profiler's state and "
            "whether anything is written are judged at each path's end."),
    "C41": ("abstract interpretation of the constructors, comparing two ways of making the same object", "A context entered from an interpreter and one made directly with the same surroundings and settings are followed through "
            "every constructor with unknown settings; their attributes and the symbolic texts of their grammars are compared one by one. For interpreters made with a parent the shared parts are compared with the parent's."),
    "C44": ("abstract interpretation of the matching routine over abstract grammars (place graphs) and tabulated token answers, compared with the set of ways",
            "The matching routine is followed for grammars given as graphs of places (shared words, cycles, ends in the middle), lines of up to three words and every table of token answers within the bounds; texts and "
            "values stay symbolic, places and tokens are witness objects. Result, named word, what is offered and for which text, the executed way and its values are compared with the ways a direct definition gives."),
    "C45": ("abstract interpretation of the tokens' routines, tabulated over sets of values and inputs, compared with the definition",
            "The constructors and the completion, match and value routines of keywords, alternatives, booleans and integer ranges are evaluated from the source for every beginning of every value, for inputs that go past "
            "one, and for ranges crossing sign, zero, numbers of digits and limits of suggestions; each answer is judged against the set of values. Inputs outside the table are not decided."),
    "C43": ("grammar analysis: the parser rules' language against a recogniser of the documented syntax; typestate dataflow of the error paths",
            "The rules in the parser classes are read as a context-free grammar; derivability is compared with an independent recogniser of the documented syntax for well-formed texts and all texts one slip away "
            "(token missing, doubled, exchanged, replaced, put in, segment doubled or missing, end too early). The error handlers of every lexer state, of both parsers, the actions of refusing rules, and the way from "
            "them through parse, compile_binding and compile_grammar are followed: every path ends in an error that is not an internal one."),
    "C42": (TS, "Both start routines, running or not, in an event loop that runs or not, with interrupts arriving while the event loop runs and while an interrupt is handled; starts, runs of the event loop, "
            "the running mark and what leaves are judged at each path's end. The routine that hands interrupts on, with and without a nested context."),
    "C11": ("abstract interpretation of the token routines into a path summary over symbolic bounds and text, decided per order class", "The constructor, value and "
            "matching routines of the bounded tokens are summarised with unknown bounds and an unknown text; the summary is compared with the definition for every order of "
            "bounds and number and every class of text. Exact while the conditions compare only the number, the bounds and constants between the witnesses."),
    "C12": ("abstract interpretation of the token routines with unknown settings and text", "Every end of every routine of every built-in token class, falling off the end included: the form of what "
            "it gives. Paths that depend on the file system are followed with joins and only reported when their conditions are about text and settings."),
    "C23": ("abstract interpretation of the built-in functions over unknown arguments", "Each function is followed through the routine actions use, with up to four arguments of which nothing is known "
            "and, for numbers, constants on both sides of zero: what is built, changed, printed, asked and returned is compared with the documentation on every path. Sums of "
            "unknown integers are compared as linear terms."),
    "C24": (TS, "Every path of the call routine for both kinds of function, plain and asynchronous, existing and missing, each call raising or not; and of the action "
            "interpreter on actions made of calls: targets, argument order, number of calls, results and what leaves."),
    "C25": ("effect analysis over the resolved call graph, plus " + TS, "Every statement of the run-time modules that can write is resolved "
            "to the stream it names; the constructors are analysed for each stream configuration and the streams in use compared with those given."),
    "C26": ("may-return-coroutine analysis over the resolved call graph", "Every call site in the package that may make a coroutine: it must be awaited, scheduled "
            "or handed on to a place that does; where it goes is followed through variables, containers and returns."),
    "C28": ("abstract interpretation of the constructor over the class table", "Every combination of the two settings, on the interpreter itself and on a subclass; the "
            "grammar text is derived as a symbolic term, and the alternatives of its root rule are compared with the commands due."),
    "C29": ("abstract interpretation of the constructor over the class table", "The generated grammar text is derived as a term in which grammar texts of methods stay "
            "symbolic, for witness classes that vary kind, arity, parameter order and prefix; each rule is compared with its method's signature. "
            "Methods beyond the witnesses are covered by the assumption that the generator looks only at name, parameters and grammar text."),
}

NOT_APPLICABLE = {
    "C32": "the offered completions are data computed from run-time grammars, file systems and number ranges; a static rule "
           "over the source cannot decide exactness (that completion has no effects is C01, the form of answers C12, which tokens are offered C44)",
    "C33": "the behaviour lives in the terminal library, which is not part of this repository; only what this package asks of "
           "it can be checked (C07, C10)",
}
