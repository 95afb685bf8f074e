"""P09: the index describes the chunks that exist and survives a reload. All histories of index operations up to a depth are interpreted over an abstract
heap and file store; after each, the listed descriptions, the reported start, end and shape and the answers to point queries are compared with the
chunks that the operations prescribe."""
from index import *
TECHNIQUE = 'abstract interpretation of all operation sequences of the chunk index (typestate), comparison with the prescribed set of chunk descriptions'
def check(ctx):
    P = ctx.program('probe_index.cc'); deep = ctx.tier == 'thorough'
    sweep(ctx, P, 'index', 3 if deep else 2, 'rnogslmiIcqp', ('', 'r', 'rn', 'qrq', 'rrq', 'rpr') if deep else ('', 'r', 'rnq', 'rrp'))
    sweep(ctx, P, 'index', 4 if deep else 3, 'rgslcqp', ('r',), (2,))
    ctx.atleast('histories', len(ctx.oblig) + len(ctx.viol), 500)
    ctx.rule = 'descriptions, bounds and queries after every history'
