"""C25: option flags are independent switches reached by name or value."""
from flagsets import *


def run(ck):
    f = Flags(ck, 'flg', 'flags', False)
    f.run(by_value=False, thorough=ck.tier == 'thorough')
    f.names('flg_name')
    return dict(minimum=100)
