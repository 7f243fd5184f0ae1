PROPERTY = 'C13'
NEEDS = "several spans of one name below one parent that have children of their own"
BREAKS = "the children of all but one of them are missing from the report"
DEPS = 'logging_config = { path = "$repo/crates/logging_config" }\ntracing = "*"'
EDITS = [('crates/logging_config/src/hprof.rs', """                self.children[idx].duration += child.duration;
                self.children[idx].count += child.count;
                self.children[idx].children.extend(child.children);""", """                self.children[idx].duration += child.duration;
                self.children[idx].count += child.count;
                if self.children[idx].children.is_empty() {
                    // Keep the allocation of the first one
                    self.children[idx].children = child.children;
                }""")]
MAIN = r'''
fn main() {
    if std::env::args().nth(2).is_some() {
        unsafe { std::env::set_var("ZUBAN_PROFILE", "*") };
        logging_config::setup_logging(None).unwrap();
        let _a = tracing::info_span!("outer").entered();
        for _ in 0..3 {
            let _b = tracing::info_span!("middle").entered();
            let _c = tracing::info_span!("leaf").entered();
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["x", "inner"]).output().unwrap();
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    if !e.lines().any(|l| l.contains("leaf") && l.contains("(3 calls)")) {
        println!("demo: not all leaf calls are in the profile: {e}");
        std::process::exit(1);
    }
}
'''
