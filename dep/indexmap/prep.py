import os, sys
p = os.path.join(sys.argv[1], 'src', 'map.rs')
s = open(p).read()
a = 'HashValue(h as usize)'
assert s.count(a) == 1
s = s.replace(a, '{ let _ = h; HashValue(0x42) }')
open(p, 'w').write(s)
