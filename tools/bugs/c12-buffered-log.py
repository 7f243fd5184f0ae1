PROPERTY = 'C12'
NEEDS = 'a process that ends without unwinding its statics (every process does) after logging'
BREAKS = 'the last records stay in a buffer and never reach the log file'
DEPS = 'logging_config = { path = "$repo/crates/logging_config" }\ntracing = "*"'
EDITS = [('crates/logging_config/src/lib.rs', """    let appender = tracing_appender::rolling::never(dir, file_name);
    Some(BoxMakeWriter::new(appender))""", """    let file = fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join(file_name))
        .expect("Expected to be able to open the log file");
    // One write for many records is a lot faster.
    let appender = std::sync::Mutex::new(std::io::BufWriter::new(file));
    Some(BoxMakeWriter::new(appender))""")]
MAIN = r'''
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let f = format!("{d}/z.log");
    if std::env::args().nth(2).is_some() {
        unsafe { std::env::set_var("ZUBAN_LOG", "info") };
        logging_config::setup_logging(Some(f.into())).unwrap();
        for k in 0..5 {
            tracing::info!("record-{k}-");
        }
        std::process::exit(0);
    }
    for _ in 0..2 {
        std::process::Command::new(std::env::current_exe().unwrap()).args([&d, "inner"]).status().unwrap();
    }
    let t = std::fs::read_to_string(&f).unwrap_or_default();
    for k in 0..5 {
        if t.matches(&format!("record-{k}-")).count() != 2 {
            println!("demo: record {k} is not in the log of both runs: {t}");
            std::process::exit(1);
        }
    }
}
'''
