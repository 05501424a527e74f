"""C04: iterating a set visits each element once and keeps the set protected."""
from iterops import *


def run(ck):
    ht = HT(ck, 'set', 'set', 'bucket', 'elem', ['elem'], 'SET_MAGIC')
    iterate_ops(ck, ht, 'set_iterate', False, True)
    iterate_ops(ck, ht, 'set_iterate_arg', True, True)
    position_ops(ck, ht, 'set_init_position', 'set_next_position', 'set_get_position', 'set_readonly', False)
    return dict(minimum=15)
