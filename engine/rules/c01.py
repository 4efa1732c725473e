from rules._proto import make

make('C01', globals(),
     "Rules: a push stores exactly the caller's value (or clones of it, in order) in the slots from the index on and nowhere else; a pop or copy or clone delivers exactly the content of the slots from the index on; the index moves by exactly the number of slots; the position published is the index; an iterator touches and passes only slots which it has observed the iterator ahead to have left. Together they make the consumed sequence the pushed one by induction over the history.",
     ['async', 'vmem', 'noalloc'],
     'Decided per operation from an arbitrary consistent state; the sequence property follows by induction over histories. Contract violations by the caller are outside.')
