"""Configurations of sessions, as dictionaries of Python values, and their text."""
import json

DEFAULTS = {'const': 'phi', 'i': 3, 'ab_polys_type': 'normal', 'ab_polys_special_params': None,
            'a_coeffs_range': [[[1, 3]]], 'b_coeffs_range': [[[1, 2]]],
            'validate_hashtable_extend_no_replication': True, 'gen_hashtable_only': 'auto',
            'hashtable_num_of_iterations': 60, 'hashtable_precision': 8,
            'first_filtering_num_of_iterations': 150, 'first_filtering_precision': 10,
            'second_filtering_max_num_of_iterations': 250, 'second_filtering_precision': 13,
            'third_filtering_max_num_of_iterations': 300, 'third_filtering_precision': 20,
            'lhs_type': 'ulcd', 'lhs_params': [1, 1, 1, 2],
            'postproc_funcs_filter': ['lambda x: x', 'safe_inverse'], 'hashtable_file_operation': 'generate',
            'hashtable_file': 'ht.pkl', 'print_surprising_nonexp_contfracs': False}


def make(**kw):
    c = dict(DEFAULTS)
    c.update(kw)
    return c


def text(cfg):
    lines = ['[Setup]']
    for k, v in cfg.items():
        if isinstance(v, str):
            s = v
        elif v is None:
            s = 'none'
        elif isinstance(v, bool):
            s = 'true' if v else 'false'
        else:
            s = json.dumps(v)
        lines.append('%s=%s' % (k, s.replace('%', '%%')))
    return '\n'.join(lines) + '\n'
