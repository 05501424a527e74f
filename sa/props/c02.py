"""C02: iterating a hash table visits every entry exactly once."""
from iterops import *


def run(ck):
    ht = HT(ck, 'hash', 'table', 'bucket', 'key', ['key', 'datum'], 'HSH_MAGIC')
    iterate_ops(ck, ht, 'hsh_iterate', False, False)
    iterate_ops(ck, ht, 'hsh_iterate_arg', True, False)
    position_ops(ck, ht, 'hsh_init_position', 'hsh_next_position', 'hsh_get_position', 'hsh_readonly', True)
    return dict(minimum=15)
