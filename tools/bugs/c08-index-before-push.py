PROPERTY = 'C08'
NEEDS = 'two threads that append at the same time'
BREAKS = 'the index given to an element is the length before the lock was taken, so two elements get the same one'
DEPS = 'utils = { path = "$repo/crates/utils" }'
EDITS = [('crates/utils/src/lib.rs', """    pub fn push(&self, element: Pin<P>) -> (&T, usize) {
        let guard = self.vec.lock().unwrap();
        let vec = unsafe { &mut *guard.get() };
        vec.push(element);
        (vec.last().unwrap(), vec.len() - 1)""", """    pub fn push(&self, element: Pin<P>) -> (&T, usize) {
        let index = self.len();
        let guard = self.vec.lock().unwrap();
        let vec = unsafe { &mut *guard.get() };
        vec.push(element);
        (vec.last().unwrap(), index)""")]
MAIN = r'''
fn main() {
    let t: std::sync::Arc<utils::InsertOnlyVec<u64>> = Default::default();
    let hs: Vec<_> = (0..8u64)
        .map(|k| {
            let t = t.clone();
            std::thread::spawn(move || {
                for i in 0..50_000u64 {
                    let v = k << 32 | i;
                    let (e, at) = t.push(Box::pin(v));
                    if *e != v || t[at] != v {
                        println!("demo: element {at} is another one");
                        std::process::exit(1);
                    }
                }
            })
        })
        .collect();
    hs.into_iter().for_each(|h| h.join().unwrap());
}
'''
