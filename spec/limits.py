"""Per-property bounds and limits of the checks, and notes on behaviour left alone."""

LIMITS = {
    "C01": "No bound on grammars or lines: the driver's loops are taken to a fixpoint. The call-graph part is flow-insensitive and resolves methods through the class hierarchy.",
    "C02": "Which sequences the grammar walk offers is C31; that the chosen one is run properly is C35.",
    "C03": "A status that depends on something unresolved is undecided and raises no alarm. Errors of user actions are contained by the call routine (C24), so status 0 means the "
           "command was called, not that it succeeded.",
    "C04": "Writing a diagnostic is assumed not to fail. `enter_grammar` cannot fail in the current code and is not made to.",
    "C05": "Errors and cancellation are injected at awaits and at hooks, not between arbitrary statements.",
    "C06": "Finite: all pairs of results, with fallback on/off and trial/real.",
    "C07": "What the terminal library does with the requests is outside. The bell setting is not restored by the code and not part of the statement.",
    "C08": "Up to three files and a few lines each are kept apart; beyond that the stack is widened.",
    "C09": "Lines are classified by what the conditions can distinguish (comment, blank, trailing backslash, spaces around); any other character behaves like the witness.",
    "C10": "Information flow of the text; its length is not secret.",
    "C11": "Witnesses on both sides of each comparison; exact while conditions compare only numbers, bounds and constants.",
    "C12": "Routines of the end-of-input marker are outside. Paths that depend on the file system are only reported for their text conditions.",
    "C13": "The two kinds of routine, every outcome; no bound on tokens.",
    "C14": "Key injectivity is judged on the term that makes the key: terms that forget part of the request are rejected, unknown functions of all parts are accepted.",
    "C15": "Lines of up to four (thorough: five) characters over class representatives; ply's matching order and longest-alternative rules are modelled, its table construction is not.",
    "C16": "Restricted to texts that do not begin or end with a quotation mark, because the conversion strips these by design. Patterns of up to three (thorough: four) characters.",
    "C17": "Numbers with leading zeros, a single `>` inside `<< >>` and unused tokens in actions are outside the statement (see the notes below).",
    "C18": "Unknown names, equal or different; no bound on the names themselves.",
    "C19": "Small bounds on both sides of each comparison; the statements that unfold larger bounds are the same.",
    "C20": "Every class of element with up to three parts; a repetition is followed until its copies are made.",
    "C21": "Up to three parts, every combination.",
    "C22": "Up to three assignments and calls over four variables, unknown values.",
    "C23": "Up to four arguments; sums compared as linear terms.",
    "C24": "Every outcome of each call; actions of up to three calls.",
    "C25": "Streams named by attribute or module; writes of unknown objects are counted as undecided. Compile-time diagnostics of the grammar compiler are outside.",
    "C26": "A call whose target is not resolved is not reported.",
    "C27": "Up to three parameters and four arguments.",
    "C28": "Finite: every combination of settings, interpreter and subclass.",
    "C29": "Witness classes; methods beyond them are covered as long as the generator looks only at name, parameters and text.",
    "C30": "Up to three arguments of every kind; blank or empty arguments and those with tabs or quotes inside are outside, because the code passes them through by design.",
    "C31": "All rules of two levels and a selection of three levels, lines of up to five words. Each level is walked by the same routines. Grammars that are inherently ambiguous are reported "
           "ambiguous by the code and are not part of the statement.",
    "C34": "One and two levels of reference. A variable passed before it was ever assigned is not linked by the code and not part of the statement.",
    "C35": "All pairs of block kinds, derivations of up to five tokens.",
    "C36": "Some 400 rules of three levels (every kind of block in every position of every kind) and 51 grammars of several rules and token declarations; words, names and codes are unknown. "
           "The semantic actions see only the parts of their production, so deeper nesting goes through the same steps. Repetition ranges are C19; names used before their rule is written stand for plain words.",
    "C37": "Declarations of up to three tokens and three arguments; lines of up to two words over rules of one and two words. Classes are unknown (their constructors are not followed here: C11, C12).",
    "C38": "Up to three offers with unknown texts and lists of 24; up to two requests before the one judged. The order of the entries is not judged. Continuation lines and the tabulator typed into a prompt are not "
           "followed; how the terminal library displays the entries is its own matter (C33).",
    "C39": "Eleven witness hierarchies, up to three parents. The defaults of the two options are taken from the constructor and not judged. Texts are distinct symbols: what two texts mean together is C07's and "
           "C36's matter.",
    "C40": "What the timing and profiling output says is not judged, only whether there is any. Writing to the output is taken not to raise. The fallback to a parent is off here (C06 has it).",
    "C41": "Five combinations of settings, contexts one and two deep. The bell setting of the parent is not handed on and not judged; nor are the defaults of the settings. Objects a constructor makes for itself are not compared.",
    "C42": "Up to three interrupts. What the terminal library does with an interrupt, and one that arrives between two statements of the start routine itself, are not followed.",
    "C43": "Texts more than a slip away from the well-formed ones are not compared; ply's tables are taken to accept what the rules derive. Tokens actions skip with a message (a stray bracket before a statement) are not judged.",
    "C45": "A table of tokens, limits and inputs in the usual notation (no leading zeros, no negative zero); offers of more than 80 values are not followed. Tokens over the file system and decimals are not judged (decimals offer nothing).",
    "C44": "Lines of up to three words on six small graphs. Words that are unfinished for several tokens without a value are not judged (they end the match as ambiguous), nor which of several complete ways is meant.",
}

DEFECT_NOTES = [
    "`exec_args` quotes only arguments that are not blank and contain a space; tabs, blank and empty arguments are passed as they are.",
    "`convert_to_cli_string` strips one leading and one trailing quotation mark of the text it is given.",
    "A single `>` inside an action's `<< >>` is an illegal character; other unused tokens in actions are skipped with a printed message.",
    "Integers with leading zeros are read by `int(..., 0)` rules; they are not a documented notation.",
    "`get_cli_hook` is applied when the command grammar is generated and again when the command runs.",
    "`enter_context` loses the bell setting; user errors in actions are contained and the response stays success.",
    "`tokenizer.parse` returns an exception object for one kind of failure instead of raising it; the callers handle both.",
    "`get_token` and `get_token_value` asked before the first match use counters that are not yet set; every public entry matches first.",
    "The help text of an undeclared word is dropped in one production.",
    "A context with `use_parent_grammar` gets the text of its parent's class but not that of the classes the parent's class derives from; one whose class derives from its parent's gets that text twice.",
    "A copied rule does not set its parent; nothing reads it.",
    "`{\"a\"}*(2:3)` and similar grammars are reported ambiguous: two derivations of the same line exist.",
    "A variable passed to a rule before it was ever assigned is not linked to the parameter.",
    "`RangedIntToken.complete` offers numbers that are out of range for '0' and '-' (exactness of completions is C32, not claimed).",
    "`PathToken` uses a loop variable that is unbound when the directory cannot be read; the matcher contains it (C13).",
    "`dict()` ignores arguments, as documented.",
]
