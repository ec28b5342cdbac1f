from .match_driver import run_c02 as run
