from .command_grammar import run_c28 as run
