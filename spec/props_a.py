"""Properties of the interpreter loop and the command surface."""

CLI = "nessaid_cli/cli.py"
CMD = "nessaid_cli/cmd.py"
IFC = "nessaid_cli/interface.py"
ELE = "nessaid_cli/elements.py"


def m(name, where):
    return {"name": name, "where": where}


P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [m(*x) for x in mech]}
    if state:
        a["state"] = [{"name": state, "where": files[0]}]
    if observe:
        a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


prop("C01", "Completion and trial matching never run grammar actions",
     "Asking for completions, or probing whether a line would match, never runs any embedded grammar action, "
     "never calls a user command and never passes an argument list out: it only computes a response.",
     ["inputs", "programs"], "every grammar and every partial or complete input line, at any point of typing",
     "Tests complete a few sample lines whose grammars have no visible side effects; a side effect on one branch of "
     "matching shows only for the input that takes it.",
     [IFC, ELE, CLI],
     [("match with the trial flag", IFC), ("completion callback", CLI), ("action execution gate", ELE)],
     observe="calls of the action execution routines reachable from a trial match")

prop("C02", "Actions run only for one complete match, and success means they ran",
     "An input line's actions are executed only when the whole line matches completely and in exactly one way; they are "
     "executed once, for that match only. The response says success exactly when the line matched that way, and a line "
     "that fails, is partial or is ambiguous executes nothing.",
     ["inputs", "programs"], "every grammar and every token list handed to the matcher",
     "Ambiguity and partial matches depend on combinations of alternatives, sets and optional parts that no finite set "
     "of sample commands covers.",
     [IFC, ELE],
     [("match driver", IFC), ("choice among candidate matches", ELE)],
     observe="the response and the execution call in the match driver")

prop("C03", "A one-shot command ends in status 0 exactly when it was executed",
     "Running a single command line or argument list always returns an integer status and never an exception; the status "
     "is 0 exactly when the line matched completely and its command was run, and non-zero when it could not be "
     "tokenized, did not match, was incomplete or ambiguous, or the match itself failed with an error.",
     ["inputs", "fault_sequences"], "every line and every failure of tokenizing, matching or a user action",
     "The failing exits are reached only by specific errors at specific points; tests run a handful of good commands.",
     [CLI, CMD],
     [("one-shot execution of a line", CLI), ("one-shot execution in the command class", CMD)],
     observe="value returned by the one-shot entry points")

prop("C04", "A bad line is reported and never ends the interpreter loop",
     "An error in tokenizing, matching or executing one input line, including any error raised by a user's action, is "
     "reported and the loop goes on with the next line; the loop ends only after an exit request or the hand-over of a "
     "line to the parent context. Only tokens of the current line are ever matched.",
     ["inputs", "fault_sequences", "histories"], "every sequence of lines with an error raised at any point of any line",
     "An escape needs an error at one particular step of one line of a longer session; tests feed good lines.",
     [CLI, CMD],
     [("interpreter loop", CLI), ("tokenizing of a line", CLI)],
     observe="exits of the loop and calls of the matcher inside it")

prop("C05", "However the loop ends, everything it set up is undone",
     "Whenever the interpreter loop or a one-shot command has been started, then on every way out of it, be it an exit request, an error, a "
     "hand-over to the parent or cancellation at any wait, the grammar scope it entered is left, its entry on the stack of active "
     "interpreters is removed, it no longer counts as running and the exit request is cleared.",
     ["schedules", "fault_sequences", "histories"], "every exit of the loop including cancellation at any await",
     "Cancellation or an error at each single wait cannot be enumerated by unit tests.",
     [CLI, CMD],
     [("set-up and final clean-up of the loop", CLI)],
     state="grammar stack, interpreter stack, running flag, exit flag",
     observe="every exit of the loop")

prop("C06", "Fallback to the parent context follows the match result exactly",
     "In a context that falls back to its parent, the parent is consulted only for a line the context itself does not match, "
     "and only as a trial. The line goes to the parent exactly when the context failed and the parent did not, or when the context "
     "was partial or ambiguous and the parent matches completely; otherwise the context's own response stands, and a handed-over "
     "line carries the same tokens and settings.",
     ["inputs", "configurations"], "every pair of results of the context and its parent, with and without fallback, trial or real",
     "The decision table has many cells, most of them reached only by nested contexts with clashing grammars.",
     [CMD],
     [("match with fallback", CMD)],
     observe="return and hand-over in the match routine of the command class")

prop("C07", "Leaving a nested context always gives the terminal back to its parent",
     "However a nested context ends, by exit, by error or by handing a line to the parent, the parent's completion and line-editing "
     "set-up is restored, the exit notification of the context is given exactly once, and the parent forgets that context. "
     "A line handed over is matched by the parent with exactly the tokens of that line.",
     ["fault_sequences", "histories"], "every way a nested context can end, including errors and cancellation at any wait",
     "The error exits of nested contexts are not reachable from the tests at all.",
     [CMD, CLI],
     [("context loop", CMD), ("child handling in the interpreter loop", CLI), ("restoring the parent", CLI)],
     observe="exits of the context loop and of the child handling")

prop("C08", "Script lines are fed once each, in order, and before the terminal",
     "Lines of command files are handed out first to last, each exactly once, the most recently added file first; an exhausted or "
     "empty file never hides the remaining lines of earlier files, and the terminal is read only when no file line is left "
     "or terminal input was asked for explicitly.",
     ["inputs", "histories"], "every nesting of command files of any length, including empty ones, and every mix of commands and prompts",
     "It takes a particular nesting of short and empty files at particular moments to lose or reorder a line.",
     [CLI],
     [("queue of file lines", CLI), ("next line", CLI), ("prompted input", CLI)],
     state="stack of pending file lines",
     observe="reads and writes of the pending lines")

prop("C09", "Comments and continuation lines are assembled exactly",
     "A line whose last visible character is a backslash is joined, without that backslash, with the next line before it is parsed, "
     "for any number of continuations; a line whose first visible character is the comment sign is never parsed or executed, "
     "and neither leaves anything behind for the line that follows.",
     ["inputs", "histories"], "every sequence of plain, continued and commented lines",
     "Left-over text shows only for particular sequences of continued and commented lines.",
     [CLI],
     [("continuation test", CLI), ("comment test", CLI), ("line assembly in the loop", CLI)],
     observe="the text handed to the tokenizer")

prop("C10", "Hidden input is never shown",
     "When input is requested without showing its characters, the text entered never reaches the output: from a command file only "
     "as many mask characters as the text is long are printed, and at the terminal the reader is asked to mask the input. "
     "When characters may be shown they are.",
     ["inputs", "configurations"], "every input text from files and from the terminal, in masked and unmasked mode",
     "A leak is invisible unless a test compares all output with the secret, on each of the input routes.",
     [CLI, IFC],
     [("prompted input", CLI), ("input called from actions", "nessaid_cli/binding_parser")],
     observe="everything printed while input is being read")
