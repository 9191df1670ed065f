import os, sys
p = os.path.join(sys.argv[1], 'src', 'walk.rs')
s = open(p).read()


def sub(a, b):
    global s
    assert s.count(a) == 1, a
    s = s.replace(a, b)


# the workers take turns: who does the next piece of work, and in which order they end, is a choice
sub('let threads = self.threads();', 'let threads = WORKERS.load(AtomicOrdering::SeqCst);')
i = s.index('        std::thread::scope(|s| {')
j = s.index('    fn threads(&self) -> usize {')
body = s[i:j]
k = body.index('let handles: Vec<_> = stacks')
m = body.index('.map(|worker| s.spawn(|| worker.run()))')
make = body[k:m].replace('let handles', 'let mut workers')
body = '        {\n            ' + make + '''.collect();
            loop {
                let i = turn(workers.len());
                match workers[i].recv() {
                    Some(Message::Work(w)) => {
                        if workers[i].run_one(w).is_quit() {
                            break;
                        }
                    }
                    _ => break,
                }
            }
            while !workers.is_empty() {
                let i = turn(workers.len());
                drop(workers.swap_remove(i));
            }
        }
    }

'''
s = s[:i] + body + s[j:]
s += '''
/// How many workers search.
pub static WORKERS: AtomicUsize = AtomicUsize::new(1);
fn turn(n: usize) -> usize {
    if n > 1 { symrt::pick(n as u64) } else { 0 }
}
'''
s = s.replace('#[cfg(test)]', '#[cfg(any())]')
open(p, 'w').write(s)
l = os.path.join(sys.argv[1], 'src', 'lib.rs')
t = open(l).read()
assert t.count('walk::{') == 1
t = t.replace('walk::{', 'walk::{WORKERS, ', 1)
open(l, 'w').write(t)
