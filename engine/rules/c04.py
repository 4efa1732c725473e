from rules._proto import make

make('C04', globals(),
     'Rules: an index is published only when it is at most as far ahead as an observed position of the iterator ahead allows (n-1 slots for the producer over the consumer), never behind the one published before, always below n; a granted request of m slots was observed to be available; a refused one was observed not to be; available() is exactly the distance.',
     ['async', 'vmem', 'noalloc'],
     'Holds for every length n >= 1 and every wrap-around at once.')
