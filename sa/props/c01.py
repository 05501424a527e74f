"""C01: a hash table is a map under every history of operations."""
from tableops import *


def run(ck):
    ht = HT(ck, 'hash', 'table', 'bucket', 'key', ['key', 'datum'], 'HSH_MAGIC')
    table_ops(ck, ht, dict(create='hsh_create', insert='hsh_insert', delete='hsh_delete', lookup='hsh_retrieve'), found='datum')
    return dict(minimum=20)
