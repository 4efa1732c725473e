from rules._proto import make

make('C08', globals(),
     'Rules: counting drop events per value: an overwritten value is dropped exactly once, a value pushed, read, copied or moved out is not dropped by the buffer, pop_move leaves an empty slot, a clone made is stored and not dropped, a refused push or unfinished future hands its value back or drops it once; the last iterator, or the drop of an unsplit buffer, drops every occupied slot exactly once and no empty one.',
     ['async', 'vmem', 'noalloc'],
     'Values are tokens with an unknown emptiness condition; loops over slots are counted by solving for the iteration which concerns a slot.')
