PROPERTY = 'C14'
NEEDS = 'a panic inside a context that is caught, and a later panic on the same thread'
BREAKS = 'the context that was left by unwinding is still printed for the later panic'
DEPS = 'utils = { path = "$repo/crates/utils" }'
EDITS = [('crates/utils/src/panic_context.rs', "        with_ctx(|ctx| assert!(ctx.pop().is_some()));", """        // The hook has printed the contexts already and must not be disturbed.
        if std::thread::panicking() {
            return;
        }
        with_ctx(|ctx| assert!(ctx.pop().is_some()));""")]
MAIN = r'''
fn main() {
    if std::env::args().nth(1).as_deref() == Some("inner") {
        let _ = std::panic::catch_unwind(|| {
            let _c = utils::panic_context::enter("FIRST".into());
            panic!("one");
        });
        eprintln!("-----");
        let _ = std::panic::catch_unwind(|| {
            let _c = utils::panic_context::enter("SECOND".into());
            panic!("two");
        });
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("inner").output().unwrap();
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    let (a, b) = e.split_once("-----").unwrap();
    if !a.contains("> FIRST") || !b.contains("> SECOND") || b.contains("> FIRST") {
        println!("demo: wrong contexts: {e}");
        std::process::exit(1);
    }
}
'''
