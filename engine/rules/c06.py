from rules._proto import make

make('C06', globals(),
     'Rules: the parts of a window are disjoint, lie inside the storage, start at ring positions index, index+1.. in order and have the requested total length; slice-wise push, copy and clone store and deliver element k at ring position (index+k) mod n and touch nothing else; every address computed and every raw access stays inside the storage.',
     ['async', 'vmem', 'noalloc'],
     'Windows are checked symbolically in index, length and count; with vmem the single mirrored slice is checked against the doubled range.')
