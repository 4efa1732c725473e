from rules._proto import make

make('C13', globals(),
     'All variants and forms are held to one and the same set of rules, which determine results, contents, indices, availabilities and flags of an operation as a function of the session state; in single-threaded histories the looks at peers are exact, hence two variants which meet the rules cannot differ.',
     ['async', 'vmem', 'noalloc'],
     'Equality is obtained through one common specification which is deterministic for single-threaded sessions.')
