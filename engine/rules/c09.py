from rules._proto import make

make('C09', globals(),
     'Rules: on a slot whose emptiness is unknown, *_init operations drop the old value exactly if the slot is occupied and never read it as a value; pop_move leaves the slot empty; teardown skips empty slots; new_zeroed makes every slot empty and drops nothing; check_zeroed answers exactly whether the slot is empty.',
     ['async', 'vmem', 'noalloc'],
     'Emptiness (all bytes zero) is tracked as a typestate of every slot.')
