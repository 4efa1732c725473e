from rules._proto import make

make('C12', globals(),
     'Rules for detached iterators: no operation but sync_index and attach publishes; advance, go_back, set_index and reset_index move to exactly the requested position modulo n; what is remembered afterwards never exceeds what was observed, measured from the new position; sync_index and attach publish the index in one step; the following operations are checked from every state with an unpublished distance.',
     ['async', 'vmem', 'noalloc'],
     'Backward moves are limited to the published position as the contract of the methods demands.')
