from .match_driver import run_c01 as run
