from .command_grammar import run_c29 as run
