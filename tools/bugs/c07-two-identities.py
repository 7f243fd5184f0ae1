PROPERTY = 'C07'
NEEDS = 'two threads that need the same not yet loaded file at the same moment'
BREAKS = 'the lock is not held while the new file state is made, so both threads add one and use different identities'
EDITS = [(TR, """        let mut guard = self.file_index.lock().unwrap();
        if let Some(file_index) = *guard {
            return file_index;
        }
        let file_index = callback();
        debug_assert_eq!(*guard, None);
        *guard = Some(file_index);
        file_index
""", """        if let Some(file_index) = self.get_file_index() {
            return file_index;
        }
        // Adding the file might take a while, other readers should not have to wait.
        let file_index = callback();
        *self.file_index.lock().unwrap() = Some(file_index);
        file_index
""")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    const N: usize = 3000;
    for i in 0..N {
        write(&format!("{d}/f{i}.py"), "x\n");
    }
    for _ in 0..6 {
        let s = S::new(&[(&d, T)]);
        let barrier = std::sync::Barrier::new(8);
        let all: Vec<Vec<FileIndex>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    let (s, d, barrier) = (&s, &d, &barrier);
                    sc.spawn(move || {
                        let es: Vec<_> = (0..N).map(|i| s.entry(&format!("{d}/f{i}.py")).unwrap()).collect();
                        barrier.wait();
                        es.iter().map(|e| s.vfs.ensure_file_index(e)).collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for i in 0..N {
            if all.iter().any(|a| a[i] != all[0][i]) {
                fail(&format!("f{i}.py has several identities: {:?}", all.iter().map(|a| a[i]).collect::<Vec<_>>()));
            }
        }
    }
}
'''
