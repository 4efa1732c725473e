from rules._proto import make

make('C11', globals(),
     'Rules: after reset_index the iterator is exactly where its look saw the iterator ahead, publishes that position (attached iterators), and remembers at most what was observed beyond it; storage and values are untouched. All later operations are checked from every such state.',
     ['async', 'vmem', 'noalloc'],
     'Whatever was remembered or granted before the reset is an unknown of the starting state.')
