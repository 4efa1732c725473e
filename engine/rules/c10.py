from rules._proto import make

make('C10', globals(),
     'Rules: every loop of every operation except wait_for is bounded by a quantity which the peers cannot change; no operation blocks; a refusal needs a fresh look; a completed advance publishes exactly its index with release; no operation panics.',
     ['async', 'vmem', 'noalloc'],
     'Wait-freedom is decided on loops: each has a linear bound fixed at its entry.')
