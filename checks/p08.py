"""P08: chunks have identities and files of their own. All histories of index operations (registering, growing, saving and loading, importing, moving,
clearing, swapping axes) up to a depth are interpreted over an abstract heap and file store; after each, identities and file names of all chunks that
the index lists are compared pairwise. Generated unique names are fresh atoms."""
from index import *
TECHNIQUE = 'abstract interpretation of all operation sequences of the chunk index (typestate), pairwise distinctness of identities and file names'
def check(ctx):
    P = ctx.program('probe_index.cc'); deep = ctx.tier == 'thorough'
    sweep(ctx, P, 'ids', 4 if deep else 3, 'rnliIc' + ('sm' if deep else ''), ('', 'rn') if deep else ('r',), (1, 2) if deep else (1,))
    if not deep: sweep(ctx, P, 'ids', 3, 'rliIm', ('',), (1,))
    sweep(ctx, P, 'ids', 2, 'rolgsmiIc', ('rr', 'rlr'), (2,))
    ctx.atleast('histories', len(ctx.oblig) + len(ctx.viol), 200)
    ctx.rule = 'distinct identities and file names after every history'
