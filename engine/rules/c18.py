from rules._proto import make

make('C18', globals(),
     'Rules: a buffer built from n items holds item k in slot k and has length n, default and new_zeroed build n default or empty slots, all three refuse n = 0 by a panic and do not panic otherwise; a split (also of a stack buffer in any state which earlier iterators can have left) leaves the published positions of producer and consumer, puts the worker between them, starts every iterator at its published position with nothing more remembered than is there, and sets exactly the flags of the iterators it made.',
     ['async', 'vmem', 'noalloc'],
     'Re-splits start from unknown positions of all three iterators.')
