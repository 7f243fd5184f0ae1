PROPERTY = 'C12'
NEEDS = 'a write that is cut short or interrupted in the middle of a record, or two threads that log at the same time'
BREAKS = 'records are written in pieces without keeping the others out, so that they are mixed'
DEPS = 'logging_config = { path = "$repo/crates/logging_config" }\ntracing = "*"'
EDITS = [('crates/logging_config/src/lib.rs', """    let appender = tracing_appender::rolling::never(dir, file_name);
    Some(BoxMakeWriter::new(appender))""", """    let appender = fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join(file_name))
        .expect("Expected to be able to open the log file");
    Some(BoxMakeWriter::new(move || PagedWriter(appender.try_clone())))"""),
 ('crates/logging_config/src/lib.rs', """pub fn setup_logging_for_tests() {""", """/// Writes page by page, because large writes block other users of the disk.
struct PagedWriter(std::io::Result<fs::File>);

impl std::io::Write for PagedWriter {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        match &mut self.0 {
            Ok(file) => file.write(&buf[..buf.len().min(512)]),
            Err(err) => Err(err.kind().into()),
        }
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn setup_logging_for_tests() {""")]
MAIN = r'''
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let f = format!("{d}/z.log");
    unsafe { std::env::set_var("ZUBAN_LOG", "info") };
    logging_config::setup_logging(Some(f.clone().into())).unwrap();
    let hs: Vec<_> = (0..8u8)
        .map(|t| {
            std::thread::spawn(move || {
                let text = ((b'a' + t) as char).to_string().repeat(3000);
                for _ in 0..3000 {
                    tracing::info!("[{text}]");
                }
            })
        })
        .collect();
    hs.into_iter().for_each(|h| h.join().unwrap());
    let t = std::fs::read_to_string(&f).unwrap();
    for l in t.lines() {
        let ok = l.ends_with(']') && l.split_once('[').is_some_and(|(_, b)| b.len() == 3001 && b.as_bytes()[..3000].iter().all(|c| *c == b.as_bytes()[0]));
        if !ok {
            println!("demo: mixed record");
            std::process::exit(1);
        }
    }
}
'''
