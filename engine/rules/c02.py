from rules._proto import make

make('C02', globals(),
     "In addition to the rules of C01, for the concurrent buffers: every look at a peer's index which an access relies on is an acquire (or followed by an acquire fence), every publication is a release made after the last access to the slots it hands over, indices and flags are only touched atomically, and no operation writes an index of another iterator. A release store read by an acquire load orders the accesses under the C11 model, so the per-operation rules compose for every interleaving.",
     ['async', 'vmem', 'noalloc'],
     'Memory-model part is decided by an ordering-aware effect analysis (release/acquire pairing on the published indices), not by enumeration of executions.')
