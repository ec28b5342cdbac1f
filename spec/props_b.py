"""Properties of tokens, grammars, the compiler and bindings."""
from .props_a import prop, CLI, CMD, IFC, ELE

TOK = "nessaid_cli/tokens.py"
UTL = "nessaid_cli/utils.py"
CMP = "nessaid_cli/compiler.py"
LEX = "nessaid_cli/lex_yacc_common.py"
BOB = "nessaid_cli/binding_parser/binding_objects.py"
BTP = "nessaid_cli/binding_parser/binding_text_parser.py"
TKZ = "nessaid_cli/tokenizer/tokenizer.py"

prop("C11", "Bounded tokens yield a value exactly when the input is in range",
     "An integer, decimal or string token with bounds gives a value only for input whose number or length lies between the "
     "bounds, both included and whatever order they were declared in, and gives the value of that input; every integer "
     "written with an optional minus sign, every decimal and every string that is within the bounds is accepted.",
     ["inputs", "configurations"], "every pair of bounds and every input text",
     "Tests try a few bounds and inputs; the mistakes sit at the end points, at negative and swapped bounds.",
     [TOK], [("value of a bounded integer, decimal or string token", TOK)],
     observe="values returned by the value routine of the bounded tokens")

prop("C12", "Token routines answer in the agreed form for every input",
     "For every input text, the matching routine of each built-in token answers with one of the defined match results, the completion "
     "routine with a count and a list of texts, and the value routine with a value or the no-value marker; none of them answers "
     "with nothing at all.",
     ["inputs", "configurations"], "every built-in token class, configuration and input text",
     "A missing return is seen only for the input that falls through to it.",
     [TOK, ELE], [("match, complete and value routines of the token classes", TOK)],
     observe="return values of the token routines")

prop("C13", "A failing token routine is contained and both kinds of routine work",
     "An error raised by a token's own matching, completion or value routine never leaves the matcher: it counts as no match, no "
     "completion or no value for that token. Plain and asynchronous routines are both called properly, with the "
     "input text and the interpreter, and their results are used unchanged.",
     ["fault_sequences", "programs"], "every user-written token class, plain or asynchronous, failing on any input",
     "Tests use only the built-in tokens, which do not fail.",
     [IFC], [("calls of token routines", IFC)],
     observe="results and exceptions of the token call wrappers")

prop("C14", "Caching never changes a result",
     "A cached converted string or token value is given out only for an equal request: the same text read in the same way, or the same "
     "token with the same input, and only for tokens that allow caching. A token value that could not be computed is not remembered as a value, and the caches "
     "stay bounded because they are emptied once they exceed their limit.",
     ["histories", "inputs"], "every sequence of conversions and matches of any length",
     "A stale or confused entry needs a particular earlier line in the same session.",
     [UTL, IFC], [("string conversion cache", UTL), ("token value cache", IFC), ("cache bounds", IFC)],
     observe="keys and values of the caches")

prop("C15", "The tokenizer accounts for every character of a line",
     "Every input line is split into tokens or rejected as a whole: no character is dropped other than the blanks and tabs that separate tokens, tokens appear in input order, and a "
     "text in quotes, even when the closing quote is missing, is one token. A line of words without backslashes and of quoted texts with the documented escapes is not rejected. "
     "Each token tells its position, its length, whether it is in quotes and whether the closing quote is missing.",
     ["inputs"], "every input line",
     "The tokenizer is driven by regular expressions over all characters; tests tokenize a few words.",
     [TKZ], [("lexical rules of the line tokenizer", TKZ), ("grammar of the line tokenizer", TKZ)],
     observe="lexical rules and their actions, grammar actions of the tokenizer")

prop("C16", "Writing a text as input and reading it back gives the same text",
     "A text that does not begin or end with a quotation mark, once written as input, is read by the tokenizer as one word, and reading that word back gives the same text, whatever "
     "white space, control characters, quotation marks and backslashes it contains and in whatever order. Every escape of a quoted word, closed or not, is read as the "
     "character it stands for, and a conversion that is remembered is only used again for the same text read in the same way.",
     ["inputs"], "every text",
     "A round trip fails only for particular characters next to backslashes.",
     [UTL], [("the two conversions between texts and input", UTL)],
     observe="the path summaries of the two conversions, composed")

prop("C17", "Names, keywords and numbers of the grammar language are told apart exactly",
     "In grammars and in actions a word is a keyword only when it is exactly that keyword; a name that merely starts with or contains a keyword is an ordinary "
     "name, and numbers in every supported notation (decimal, signed, with a fraction, hexadecimal) have the value they denote. True, False and None stand for these values or, used as a "
     "name, for their text. White space, line ends and comments separate words and have no other effect; what looks like a comment or keyword inside quotes is text.",
     ["programs"], "every identifier, keyword, number and comment in a grammar or action",
     "Collisions show only for names that begin with keywords or for comments in particular places.",
     [CMP, BTP, LEX], [("lexical rules of the grammar language", CMP), ("lexical rules of actions", BTP)],
     observe="lexical rules and conversion of their values")

prop("C18", "A name is defined at most once",
     "Compiling a grammar that defines a name twice, as a rule, as a token or as one of each, in either order, is rejected and leaves the first definition "
     "in place; the same holds for two parameters of one rule.",
     ["programs"], "every pair of clashing definitions",
     "There are several combinations and orders; the tests exercise none of them.",
     [ELE], [("adding rules and tokens to the grammar", ELE)],
     observe="writes to the tables of definitions")

prop("C19", "Repetition bounds expand to exactly the allowed counts",
     "A repeated block with a lower and an upper bound admits exactly the counts from the lower to the upper bound, including zero when the lower bound is zero, and "
     "its actions are kept; bounds that make no sense are rejected when the grammar is compiled.",
     ["programs"], "every repeated or optional block with every pair of bounds",
     "Off-by-one errors in bounds show only for particular pairs.",
     [CMP], [("construction of repeated and optional blocks", CMP)],
     observe="elements built for a repeated block")

prop("C20", "A copied grammar element keeps everything that matters",
     "Copying any part of a grammar, which is done for each round of a repetition, gives an element of the same kind with the same content, help text, actions "
     "before and after it and repetition count, and whose parts belong to the copy.",
     ["programs"], "every kind of grammar element inside a repetition",
     "A lost attribute shows only from the second round of a repetition on.",
     [ELE], [("copy routines of the grammar elements", ELE)],
     observe="attributes of the copied element")

prop("C21", "Whether a block can be skipped follows from its parts",
     "A sequence or set is required when any of its parts is required, a choice is required when all its alternatives are, an optional block and an empty element never are, words are always "
     "required, and a rule is required when its body is.",
     ["programs"], "every nesting of blocks",
     "The rule is recursive over all nestings.",
     [ELE], [("skippability of the grammar elements", ELE)],
     observe="value of the skippability query")

prop("C22", "Grammar variables hold and copy the assigned value",
     "Assigning to a grammar variable stores the value assigned, reading it gives that value back, and assigning one variable to "
     "another copies the value without linking the two. A parameter without an argument starts with its default, or with nothing.",
     ["programs", "histories"], "every sequence of assignments among named, numbered and parameter variables",
     "Links between variables show only after a later assignment.",
     [BOB, IFC, ELE], [("variable objects", BOB), ("execution of assignments", IFC)],
     observe="values stored by assignments")

prop("C23", "The built-in action functions compute what is documented",
     "The functions available in actions do what they are documented to do for all arguments: list and set build a new collection of exactly the arguments, dict a new empty one, append and update change and return "
     "the given collection, inc and dec change a number by one, add adds up all its arguments, print writes its arguments and input returns the text read.",
     ["inputs", "programs"], "every function and every number and kind of arguments",
     "Each function has several argument forms that no test calls.",
     [IFC], [("built-in functions for actions", IFC)],
     observe="results of the built-in functions")

prop("C24", "Calls from actions reach the right function and failures stay inside",
     "A call in an action runs the named method of the interpreter, or the built-in function when one is asked for, exactly once with the evaluated arguments in "
     "order, waits for asynchronous ones and uses the result; a missing method or a failing call is reported and never aborts the line.",
     ["programs", "fault_sequences"], "every call in an action, plain or asynchronous, existing or missing, failing or not",
     "Failures in the middle of an action are not exercised.",
     [IFC], [("calls made by actions", IFC)],
     observe="calls and exceptions in the call routine")

prop("C25", "Run-time output goes to the configured streams",
     "Everything the interpreter prints while it runs, results, diagnostics and tracebacks, goes to the output and error streams the interpreter was given and to "
     "the process streams only when none was given.",
     ["configurations", "inputs"], "every output statement of the interpreter under every stream configuration",
     "Stray output is seen only when the particular statement runs under redirected streams.",
     [CLI, CMD, IFC, UTL], [("stream holder", UTL), ("print statements", CMD)],
     observe="every output call in the package")

prop("C26", "No asynchronous step is started without being waited for",
     "Every asynchronous operation of the package that is called is also awaited or scheduled, so that its effects happen in order and its "
     "errors are not lost.",
     ["schedules", "programs"], "every call of an asynchronous routine in the package",
     "A forgotten wait produces only a warning and a silently missing effect on the path concerned.",
     [CLI, CMD, IFC, TOK], [("calls of asynchronous routines", CLI)],
     observe="call sites of asynchronous routines")

prop("C27", "Arguments are bound to parameters by position, name and default",
     "When a rule is referenced with arguments, positional arguments fill the parameters in order, named arguments fill the parameter of that name, and parameters left over get their default or "
     "nothing. Too many arguments, an unknown or repeated name, or a positional argument after a named one is rejected.",
     ["programs"], "every parameter list and argument list",
     "Combinations of positional, named and default arguments are unbounded.",
     [ELE], [("mapping of arguments to parameters", ELE)],
     observe="result and exceptions of the mapping")

prop("C28", "Disabling the default commands removes all of them",
     "A command interpreter created with its default commands disabled offers none of the built-in commands, and one created without that setting offers all of them; "
     "memory tracing is the exception, which in either case is offered exactly when it was asked for.",
     ["configurations"], "every combination of settings",
     "Adding a command without disabling it is not noticed by tests of existing commands.",
     [CMD], [("set-up of the command interpreter", CMD)],
     observe="built-in commands left enabled by the constructor")

prop("C29", "Commands get their grammar, and their arguments in declared order",
     "Every method with the command prefix and a grammar text becomes one alternative of the interpreter's grammar, and when it is matched that same method is called with its parameters in the declared order, "
     "each starting out empty.",
     ["programs", "configurations"], "every set of command methods with any number of parameters",
     "The grammar text is generated; a mistake shows only for particular signatures.",
     [CMD], [("generation of the command grammar", CMD)],
     observe="text of the generated grammar")

prop("C30", "The generated command line keeps argument boundaries",
     "When a command is run from a list of arguments, each argument that is not blank and has no quotes, backslashes, tabs or line ends reaches the command as exactly one "
     "token, in order, even when it contains blanks; an argument without blanks or already in quotes is passed as it is.",
     ["inputs"], "every list of arguments",
     "Only simple words are tried.",
     [CMD], [("one-shot execution of an argument list", CMD)],
     observe="the line built from the arguments")

prop("C31", "Matching follows the grammar: what may come next",
     "At every point of a line the words that may come next are exactly those with which some derivation of the rule goes on, and the line may end exactly where a derivation ends - for every nesting of "
     "sequences, choices, sets, optional blocks, repetitions and references to rules.",
     ["inputs", "programs"], "every rule and every beginning of a line it derives",
     "Rules nest without limit and most mistakes need a particular nesting and order of words.",
     [ELE], [("grammar walk", ELE)],
     observe="the tokens the walk offers after each word")

prop("C32", "Completions are complete and correct",
     "At every point of an input line the offered completions are exactly the continuations the grammar and its tokens allow.",
     ["inputs", "programs"], "every grammar and partial line",
     "The state space of grammars and partial lines is unbounded.",
     [IFC, TOK, CLI], [("computation of next tokens", IFC), ("numeric completion", TOK)],
     observe="offered completions")

prop("C33", "Line editing and history behave as the terminal library promises",
     "Editing keys, history recall and masking at the terminal show and return what the user typed.",
     ["inputs", "histories"], "every sequence of key strokes",
     "Key sequences are unbounded and need a terminal.",
     [CLI], [("use of the terminal library", CLI)],
     observe="text returned by the terminal library")

prop("C34", "A referenced rule works on what is passed to it and nothing else",
     "Inside a referenced rule a parameter has the value of its argument, its default, or nothing. Assigning to it changes the variable that was passed (one assigned before) and no other variable of the caller; "
     "variables the rule creates are its own, and using the rule again starts afresh.",
     ["programs", "histories"], "every reference between rules, every mix of arguments and every sequence of assignments on both sides",
     "A leak between two uses, or a lost link, shows only in a later action.",
     [IFC, BOB, ELE], [("entering and leaving of rules", IFC), ("variable objects", BOB)],
     observe="what the actions of both rules see")

prop("C35", "Actions run once around their element, and $n is the value of the n-th element",
     "In a match the actions before an element run once when it is entered and those after it once when it is left, however many words it takes. After an element $n is the value given to the n-th element of its "
     "block, nothing if that was left out, and the list of values if it took several words; a choice and a repetition have only $1.",
     ["programs", "inputs"], "every rule, every placement of actions in it and every line it matches",
     "When a block is left depends on what is typed after it; each placement and order is a case of its own.",
     [IFC, ELE], [("execution of a match", IFC)],
     observe="the calls the actions make, in order, and the values they see")

prop("C36", "A grammar is compiled into the structure that is written",
     "A compiled rule has exactly the words, texts, blocks and references written, in their order and nesting, each with its own help text and with the actions written before and after it, in order. "
     "The name of an earlier rule stands for that rule with the arguments written; parameters keep names, order and defaults, and every declared token is known with its class.",
     ["programs"], "every grammar that can be written",
     "Blocks nest without limit; a mistake in one combination of blocks and actions shows only in a grammar that has it.",
     [CMP, ELE], [("grammar productions", CMP), ("rule and token tables", ELE)],
     observe="the rules of the compiled grammar")

prop("C37", "A declared token is an object of the class its declaration names",
     "A token is made from the class its declaration names - the application's own before the package's - with the declared values: positional ones in order, named ones by name, and the token's name, the interpreter "
     "and the help text. Asked for again with the same help it is the same object; a class that fails is reported and replaced by a plain token. A quoted text that is also a token's name stands for itself, "
     "and the tokens of the built-in commands do not depend on the classes an application gives.",
     ["programs", "inputs"], "every declaration, every set of token classes and every grammar using them",
     "A value lost or moved shows only for a token class that needs it; the precedence only in an application with classes of the same name.",
     [IFC, ELE, CMP, CMD], [("making of tokens", IFC), ("token declarations", ELE), ("token classes of the built-in commands", CMD)],
     observe="the token objects used for a line")

prop("C38", "Completion shows everything that is offered and inserts only what is missing",
     "On the completion key the words of the edit line are matched, the last being complete exactly when a blank follows. What matching offers is shown: one entry for each offer with its text and help, one "
     "for the end of the command exactly when the command may end there, and the error when nothing matches; request n gives entry n, and nothing past the end, without matching again. Text is inserted only "
     "when one continuation is left, and is exactly what is missing of it. A failure of matching is shown and does not leave the callback.",
     ["inputs", "histories"], "every edit line, every result of matching and every sequence of requests",
     "Which branch answers depends on the line, on the result of matching and on the requests before it.",
     [CLI, IFC], [("completion callback", CLI), ("formatter of the entries", CLI)],
     observe="the completion entries and the edit line")

prop("C39", "An interpreter's grammar is made of its classes' and its parents' texts",
     "The grammar of a command interpreter holds the text of its own class, of every interpreter class it derives from, of the package's base class unless use_base_grammar is off and, for a context with "
     "use_parent_grammar, of its parent's class and so on as far as each asks for its own parent's: each exactly once, no other text, bases before what derives from them, parents before their contexts, all "
     "before the commands. A class without a text, or one that is no interpreter, among the bases cuts nothing off.",
     ["inputs"], "every class hierarchy, every chain of parents and every setting of the two options",
     "Which texts are due depends on the whole hierarchy and on the parents.",
     [CMD], [("sources of the grammar", CMD), ("constructor", CMD)],
     observe="what rules the commands of an application can use")

prop("C40", "Timing and profiling never change what a line does",
     "Whatever is switched on with cmd-timing and cmd-profiling, a line is matched exactly once and with what was given, the result of matching comes back and a failure of it leaves as it is; a profiler that "
     "cannot be started because another is active (a line run by the action of a profiled line) does not keep the line from being matched, and one that was started is stopped. Nothing is written when both are "
     "off, nor for completion or an empty line; what is switched on is shown.",
     ["inputs", "histories"], "every line, every setting of the two switches, every outcome of matching and every state of the profiler",
     "The switches cross with the outcomes of matching, with trial matching, with being thrown by the very line, and with a profiler that is already active.",
     [CMD], [("match of the command interpreter", CMD)],
     observe="status, output and effects of a line")

prop("C41", "A nested context works on its parent's surroundings with the settings asked for",
     "An interpreter made with a parent has its parent's terminal library object, loop, streams and script lines. Entering a context from an interpreter makes the context the active one and gives it the parent's "
     "loop, streams, completion key, input mode, cache size and memory tracing, itself as parent, and exactly the prompt, settings and further arguments asked for: what making it directly with these would give. A "
     "context that cannot be made leaves the parent as it is, and the failure goes to whoever entered it.",
     ["inputs"], "every parent, at any depth, and every combination of settings",
     "The settings of the parent cross with those asked for, and only some combinations show a wrong one.",
     [CMD, CLI], [("enter_context", CMD), ("constructors", CLI)],
     observe="how a nested context talks to the terminal and which commands it knows")

prop("C42", "An interpreter runs once at a time, and interrupts go to the innermost context",
     "Starting an interpreter that is running is refused and changes nothing. Otherwise its loop is started once, with its introduction, and it counts as running from then on, also when the event loop runs "
     "already. When it does not, the call runs it and returns only when the interpreter's loop has ended: an interrupt from outside, even one that arrives while another is being handled, neither ends the call nor "
     "is lost. It goes to the innermost nested context, and from there to the terminal, once.",
     ["schedules", "histories"], "every moment at which an interrupt arrives and every state of the interpreter and the event loop",
     "Where an interrupt arrives is not under a test's control.",
     [CMD, CLI], [("run", CLI), ("run", CMD), ("external interrupts", CLI)],
     observe="whether the session goes on")

prop("C43", "Exactly the texts of the grammar language compile; others are refused",
     "Every grammar written in the documented syntax (rules with parameters, alternatives, sequences, orderless and optional groups, repetitions, help texts, token declarations, actions) is accepted, and so is every "
     "action. Every other text - a token missing, left over, misplaced, unknown to the lexer, or an end too early - is refused: compile_grammar raises an error about the text. It never ends with an internal error, "
     "goes on after a syntax error with part of the grammar, or gives nothing.",
     ["inputs"], "every text, as a sequence of the language's tokens",
     "Tests compile a few grammars that are right; which of the texts that are not one slips through is not seen.",
     ["nessaid_cli/compiler.py", "nessaid_cli/lex_yacc_common.py", "nessaid_cli/binding_parser/binding_text_parser.py"],
     [("compile_grammar", "nessaid_cli/compiler.py"), ("syntax errors", "nessaid_cli/lex_yacc_common.py"), ("actions", "nessaid_cli/binding_parser/binding_text_parser.py")],
     observe="the exception of compile_grammar, or its absence")

prop("C44", "A line is matched word by word along every way the grammar offers",
     "A way through the grammar is followed exactly as long as each of its words is taken by its token - in full, or unfinished with a value of its own. The first word that no way takes fails the line and is "
     "the one named. A trial offers exactly what may follow the last word on some way, and the end where a way may end; while the last word is unfinished it offers exactly the tokens that word may belong to, "
     "completed for that word. A line that is executed runs the one complete way, with the value of each word in order; several complete ways are ambiguous, none is partial.",
     ["inputs", "histories"], "every grammar, every line and every answer of the tokens",
     "Tests match whole lines of one grammar; ways that share words, end early or are left by a later word are not sampled.",
     ["nessaid_cli/interface.py"], [("match", "nessaid_cli/interface.py")], observe="result, offers, named word and executed values")

prop("C45", "A token with a fixed set of values offers, takes and gives exactly these",
     "For a keyword, a token over alternatives, a boolean and an integer range, the completions of an input are exactly the values whose text begins with it (a boolean's whatever their case, keeping what is typed), each once; "
     "they are left out only when there are more than may be suggested, and the number says that there are several. Matching fails exactly when no value begins with the input, and is complete for a value nothing else "
     "begins with. A value typed in full has its value, also when longer values begin with it; what no value begins with has none.",
     ["inputs"], "every set of values or range, every limit of suggestions, every input in the usual notation",
     "Tests complete a few inputs of one range; sign, zero, the number of digits and the limit cross in ways that are not sampled.",
     ["nessaid_cli/tokens.py"], [("complete", "nessaid_cli/tokens.py"), ("match", "nessaid_cli/tokens.py"), ("get_value", "nessaid_cli/tokens.py")],
     observe="the completions shown, the match and the value of a word")
