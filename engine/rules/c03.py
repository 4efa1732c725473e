from rules._proto import make

make('C03', globals(),
     'Rules: every access to a slot, made by an operation or allowed to the caller by a window it hands out, lies between the position the iterator has published and the position which an acquire look showed the iterator ahead to have reached (capacity for the producer); a position is published with release and after the accesses; what an iterator remembers as available never exceeds what it has observed.',
     ['async', 'vmem', 'noalloc'],
     'Slot ownership as a typestate: the slots between own published index and observed successor index are own; disjointness of the three ranges is the session invariant.')
