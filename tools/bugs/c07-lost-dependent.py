PROPERTY = 'C07'
NEEDS = 'two threads whose files import the same file register that at the same moment'
BREAKS = 'one of the two registrations is lost, so that file is not recomputed when the imported one changes'
EDITS = [(TR, """        if let InvalidationDetail::Some(invs) = &mut *self.0.write().unwrap() {
            invs.insert(element);
        }
""", """        // Mostly it is already in there, in that case readers should not have to wait.
        let InvalidationDetail::Some(mut invs) = self.0.read().unwrap().clone() else {
            return;
        };
        if invs.insert(element) {
            *self.0.write().unwrap() = InvalidationDetail::Some(invs);
        }
""")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    const N: usize = 8;
    const M: usize = 400;
    for i in 0..N {
        write(&format!("{d}/f{i}.py"), "x\n");
    }
    for i in 0..M {
        write(&format!("{d}/g{i}.py"), "x\n");
    }
    for round in 0..10 {
        let mut s = S::new(&[(&d, T)]);
        let fs: Vec<_> = (0..N).map(|i| s.index(&format!("{d}/f{i}.py")).unwrap()).collect();
        let gs: Vec<_> = (0..M).map(|i| s.entry(&format!("{d}/g{i}.py")).unwrap()).collect();
        for g in &gs {
            s.vfs.ensure_file_for_file_entry(g.clone(), false, |_, c| f(&*c)).unwrap();
        }
        let barrier = std::sync::Barrier::new(N);
        std::thread::scope(|sc| {
            for t in &fs {
                let (gs, barrier) = (&gs, &barrier);
                sc.spawn(move || {
                    for g in gs {
                        barrier.wait();
                        g.add_invalidation(*t);
                    }
                });
            }
        });
        for i in 0..M {
            let p = format!("{d}/g{i}.py");
            for t in &fs {
                s.vfs.file_mut(*t).unwrap().stale = false;
            }
            s.open(&p, &format!("y{round}\n"));
            for t in &fs {
                if s.vfs.file(*t).is_some_and(|f| !f.stale) {
                    fail("a file that depends on a changed one was not told");
                }
            }
        }
    }
}
'''
