"""C24: debug flags are independent switches reached by name or value."""
from flagsets import *


def run(ck):
    Flags(ck, 'dbg', 'debug', True).run(thorough=ck.tier == 'thorough')
    return dict(minimum=100)
