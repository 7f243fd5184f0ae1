PROPERTY = 'C03'
NEEDS = 'another program creates a file while its directory is being listed, after the listing passed that place and before the watch exists'
BREAKS = 'the directory is watched after it was listed, so a file created in between is never seen'
EDITS = [(L, """        self.watch(path);
        let iterator = match std::fs::read_dir(path) {""", """        let iterator = match std::fs::read_dir(path) {"""),
 (L, """        Entries::new(entries)
    }

    fn read_and_watch_entry(""", """        self.watch(path);
        Entries::new(entries)
    }

    fn read_and_watch_entry(""")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    for i in 0..3000 {
        write(&format!("{d}/p/f{i}.py"), "");
    }
    for round in 0..6 {
        let mut s = S::new(&[(&d, T)]);
        let go = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (g, d2) = (go.clone(), d.clone());
        let h = std::thread::spawn(move || {
            while !g.load(std::sync::atomic::Ordering::SeqCst) {}
            let mut made = vec![];
            for k in 0..300 {
                let p = format!("{d2}/p/new{round}_{k}.py");
                std::fs::write(&p, "").unwrap();
                made.push(p);
            }
            made
        });
        go.store(true, std::sync::atomic::Ordering::SeqCst);
        // the first lookup below the directory lists it
        s.entry(&format!("{d}/p/f0.py")).unwrap();
        let made = h.join().unwrap();
        s.settle();
        for p in made {
            if s.entry(&p).is_none() {
                fail(&format!("{p} exists but is not seen"));
            }
        }
    }
}
'''
