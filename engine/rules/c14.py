from rules._proto import make

make('C14', globals(),
     'Rules: a poll which returns Ready has done what the synchronous operation does when it succeeds, with that result; a poll which returns Pending has no effect at all and keeps the value of a push; a future polled again behaves like the first poll; Pending is returned only if a fresh look showed too few slots; a future dropped gives its value back to be dropped once; creating a future has no effect.',
     ['async', 'vmem', 'noalloc'],
     'Each future is polled once and twice from arbitrary states, then dropped.')
