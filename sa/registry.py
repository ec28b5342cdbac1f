"""Property id -> module under sa/checks."""

CHECKS = {
    'C01': 'trial_purity',
    'C02': 'match_once',
    'C13': 'token_calls',
    'C14': 'caches',
    'C22': 'variables',
    'C34': 'references',
    'C35': 'element_actions',
    'C36': 'compiled',
    'C37': 'token_objects',
    'C38': 'completion_callback',
    'C39': 'grammar_sources',
    'C23': 'builtins_functions',
    'C24': 'action_calls',
    'C28': 'builtin_commands',
    'C29': 'command_calls',
    'C25': 'output_streams',
    'C26': 'await_discipline',
    'C09': 'line_assembly',
    'C10': 'masked_input',
    'C08': 'script_feed',
    'C07': 'context_teardown',
    'C04': 'loop_containment',
    'C05': 'cleanup',
    'C06': 'parent_fallback',
    'C43': 'refusals',
    'C44': 'line_ways',
    'C45': 'offers',
    'C42': 'loop_start',
    'C41': 'context_settings',
    'C40': 'timed_match',
    'C21': 'required',
    'C27': 'arguments',
    'C19': 'repetition',
    'C17': 'words',
    'C18': 'unique_names',
    'C20': 'element_copy',
    'C31': 'walk',
    'C03': 'oneshot_status',
    'C15': 'line_split',
    'C16': 'escaping',
    'C30': 'argument_line',
    'C12': 'token_protocol',
    'C11': 'bounded_tokens',
}
