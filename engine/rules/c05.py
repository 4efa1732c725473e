from rules._proto import make

make('C05', globals(),
     'Rules: available() returns exactly the distance seen at its look at the iterator ahead; a request is granted only if the slots were observed to be available, and refused only if a fresh look of the same call showed fewer; a refused request leaves index, published index, storage and destination untouched, runs no clone or drop, and hands a pushed value back.',
     ['async', 'vmem', 'noalloc'],
     'Requests for n >= 1 slots, sequential and concurrent sessions alike.')
