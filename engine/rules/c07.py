from rules._proto import make

make('C07', globals(),
     'Rules: dropping an iterator clears its own flag exactly once by an atomic read-modify-write and no other flag; the storage and the buffer are freed on exactly the outcomes where that step showed all other flags cleared, once each, with the right size and only for heap buffers; nothing of the buffer is touched after the flag is cleared unless all others are gone; the step is a release and the freeing thread acquires; conversions between plain, detached and async forms neither drop nor duplicate the share; is_*_alive report the flag, read with acquire. The drop of an unsplit buffer frees it once.',
     ['async', 'vmem', 'noalloc'],
     'All drop orders at once: the flags of the peers are unknown and may change between any two looks.')
