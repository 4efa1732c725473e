from rules._proto import make

make('C17', globals(),
     'Rules, on the configuration with feature vmem: construction maps one shared object twice, back to back, readable and writable, of the size of the storage, and copies the items into it; the length is the next multiple of the page size; failures of the system are not ignored; teardown drops the items once and unmaps both views; and all rules of the other properties hold with windows that may reach into the second view.',
     ['vmem'],
     'The kernel is modelled by its documented interface (memfd_create, ftruncate, mmap with MAP_FIXED, munmap).')
