"""which contracts decide which property"""

ASSUMPTIONS = [
    'every text (argument, identifier, help text) is shorter than 2^30 characters and contains no NUL character',
    'partial correctness: termination of loops is not proved',
    'memory allocation does not fail; user-supplied callables terminate',
    'fixed-width integers are mathematical integers with their range; conversions and unsigned wrap-around are modelled exactly, signed overflow is an obligation',
]
TRUSTED = [
    'clang 18 front end (AST of the real headers) and extractor/cxtract.cpp (AST -> JSON, nothing dropped inside function bodies except comments and attributes)',
    'cxv symbolic executor (path exploration, loop cutting with Houdini-pruned invariants)',
    'z3 and cvc5',
]

PARSE_NOTE = ['argument texts contain no NUL characters (they come from argv)']

PROPS = {
    'C01': dict(specs=['find_option_id']),
    'C02': dict(specs=['identify_and_retrieve']),
    'C03': dict(specs=['get_option', 'get_option_by_id', 'format_parse_add_option']),
    'C04': dict(specs=['get_option_list', 'get_option_by_id_list', 'format_parse_add_option']),
    'C05': dict(specs=['flag_is_set', 'get_flag', 'format_parse_add_flag']),
    'C06': dict(specs=['format_parse_parse', 'check_for_unknown_ids', 'check_for_left_over_args']),
    'C07': dict(specs=['format_parse_parse']),
    'C08': dict(specs=['get_positional_option', 'get_positional_list', 'format_parse_add_positional_option', 'format_parse_parse']),
    'C09': dict(specs=['parse_option_value', 'throw_on_input_error']),
    'C10': dict(specs=['verify_identifiers', 'parser_add_option', 'parser_add_flag', 'parser_add_positional_option', 'parser_ctor']),
    'C11': dict(specs=['parser_add_option', 'parser_add_flag', 'parser_add_positional_option', 'parser_add_section', 'parser_add_subsection', 'parser_add_line', 'parser_add_list_item',
                       'add_subcommands', 'parser_parse', 'is_option_set', 'get_sub_parser', 'parser_ctor']),
    'C12': dict(specs=['is_option_set']),
    'C13': dict(specs=['determine_format', 'parser_parse', 'parser_ctor', 'parser_add_option']),
    'C15': dict(specs=['range_validator', 'list_validator', 'regex_validator', 'range_validator_ctor', 'list_validator_ctor', 'regex_validator_ctor', 'default_validator',
                       'validator_chain', 'validator_chain_ctor', 'validator_chain_operator']),
    'C16': dict(specs=['validate_readability', 'validate_writeability', 'validate_filename', 'case_insensitive_ends_with', 'input_file_validator', 'output_file_validator', 'input_directory_validator',
                       'output_directory_validator', 'path_list_validator', 'input_file_validator_ctor', 'output_file_validator_ctor']),
    'C17': dict(specs=['validate_readability', 'validate_writeability', 'input_file_validator', 'output_file_validator', 'input_directory_validator', 'output_directory_validator']),
    'C18': dict(specs=['case_insensitive_ends_with', 'validate_filename', 'input_file_validator_ctor', 'output_file_validator_ctor']),
    'C19': dict(specs=['decide_if_check_is_performed', 'run_version_check', 'version_checker_ctor', 'get_path', 'determine_format', 'parser_ctor'],
                variants={'NDEBUG': ['decide_if_check_is_performed', 'version_checker_ctor', 'get_path']}),
    'C20': dict(specs=['version_check_operator', 'version_checker_ctor', 'call_server', 'run_version_check', 'verify_names', 'parser_parse', 'parser_ctor'],
                variants={'NDEBUG': ['version_check_operator', 'version_checker_ctor']}),
    'C21': dict(specs=['version_numbers', 'version_check_operator', 'version_checker_ctor', 'call_server', 'run_version_check'],
                variants={'NDEBUG': ['version_numbers', 'version_check_operator', 'version_checker_ctor']}),
    'C26': dict(specs=['guard_destructor', 'guard_constructor', 'guard_remove', 'guard_remove_no_throw', 'guard_remove_all']),
    'C22': dict(specs=['page_add_option', 'page_add_flag', 'page_add_positional', 'page_add_section', 'page_add_subsection', 'page_add_line', 'page_add_list_item', 'page_parse',
                       'ctor_format_help', 'ctor_format_html', 'ctor_format_man', 'parser_add_option', 'parser_add_flag', 'parser_add_positional_option', 'parser_add_section',
                       'parser_add_subsection', 'parser_add_line', 'parser_add_list_item', 'determine_format']),
    'C23': dict(specs=['page_add_option', 'page_add_flag', 'page_add_positional', 'prep_id_for_help', 'get_default_message', 'to_string', 'term_item', 'man_item', 'html_item',
                       'ctor_format_help', 'ctor_format_html', 'ctor_format_man', 'parser_add_option', 'parser_add_flag', 'parser_add_positional_option']),
    'C24': dict(specs=['escape_special_xml_chars', 'to_html', 'html_header', 'html_section', 'html_subsection', 'html_line', 'html_item', 'html_footer', 'html_in_bold', 'page_parse',
                       'ctor_format_html']),
    'C25': dict(specs=['to_text', 'text_width', 'print_text', 'term_in_bold', 'term_header', 'term_section', 'term_subsection', 'term_line', 'term_item', 'layout_ctor', 'ctor_format_help',
                       'page_synopsis']),
    'C27': dict(specs=['to_string', 'get_default_message', 'escape_special_xml_chars', 'expand_multiple_flags']),
    'C28': dict(specs=['page_parse', 'page_version', 'page_legal', 'page_synopsis', 'page_short_help', 'page_version_only', 'page_copyright', 'term_header', 'man_header', 'man_section',
                       'man_subsection', 'man_line', 'man_item', 'man_in_bold', 'html_header', 'html_in_bold', 'term_in_bold']),
    'C14': dict(specs=['determine_format', 'add_subcommands', 'parser_add_option', 'parser_ctor']),
}

NOT_APPLICABLE = {}
