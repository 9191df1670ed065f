import os, sys
d = sys.argv[1]
p = os.path.join(d, 'src', 'glob.rs')
s = open(p).read()
open(p, 'w').write(s + open(os.path.join(d, 'nodes.rs')).read())
