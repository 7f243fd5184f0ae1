PROPERTY = 'C17'
NEEDS = 'more notifications than the buffer holds, then a request to the notification thread before they are processed'
BREAKS = 'the notification thread waits for the main thread to take an event while the main thread waits for its answer'
EDITS = [(L, "use crossbeam_channel::{Receiver, unbounded};", "use crossbeam_channel::{Receiver, bounded};"),
         (L, "let (watcher_sender, watcher_receiver) = unbounded();", "let (watcher_sender, watcher_receiver) = bounded(32);")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    write(&format!("{d}/a.py"), "x");
    std::fs::create_dir(format!("{d}/p")).unwrap();
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(20));
        fail("the session does not go on");
    });
    let s = S::new(&[(&d, T)]);
    s.text(&format!("{d}/a.py"));
    for k in 0..200 {
        std::fs::write(format!("{d}/b{k}.py"), "x").unwrap();
    }
    std::thread::sleep(Duration::from_millis(300));
    write(&format!("{d}/p/c.py"), "c");
    if s.text(&format!("{d}/p/c.py")).as_deref() != Some("c") {
        fail("p/c.py was not read");
    }
    drop(s);
}
'''
