from rules._proto import make

make('C15', globals(),
     'Rule: every outcome of a poll which is Pending has woken (or will wake) the task: on the path there is a wake of the waker of the context given, after the failed look or together with it. Since the crate never wakes a peer, only this makes the task be polled again.',
     ['async', 'vmem', 'noalloc'],
     'A sufficient and, in this crate, necessary condition: the waker passed is woken on every Pending path.')
