PROPERTY = 'C11'
NEEDS = 'a license that was accepted once, replaced by an altered one of the same length in the same place'
BREAKS = 'a verdict is remembered by path and size, so the altered license is accepted'
DEPS = 'licensing = { path = "$repo/crates/licensing", features = ["simulation"] }'
EDITS = [('crates/licensing/src/lib.rs', "    let license = License::from_json(&license_s)?;\n    if !license.verify()? {\n", """    let license = License::from_json(&license_s)?;
    // Checking a signature is slow, do not repeat it for a file that was found to be fine.
    static VERIFIED: std::sync::Mutex<Vec<(std::path::PathBuf, usize)>> =
        std::sync::Mutex::new(Vec::new());
    let key = (path.to_path_buf(), license_s.len());
    if VERIFIED.lock().unwrap().contains(&key) {
        return Ok(license.level);
    }
    let verified = license.verify()?;
    if verified {
        VERIFIED.lock().unwrap().push(key);
    }
    if !verified {
""")]
MAIN = r'''
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let key: Vec<String> = (1..=32u8).map(|b| format!("{b:02x}")).collect();
    unsafe { std::env::set_var("ZUBAN_SIGNING_KEY", key.join(":")) };
    let l = licensing::create_license("Jane Doe".into(), "j@x.y".into(), "X".into(), 3).unwrap();
    let p = std::path::PathBuf::from(format!("{d}/license.json"));
    std::fs::write(&p, &l).unwrap();
    if licensing::verify_license_in_path(&p).is_err() {
        println!("demo: a fresh license is refused");
        std::process::exit(1);
    }
    std::fs::write(&p, l.replace("Jane Doe", "Jane Roe")).unwrap();
    if licensing::verify_license_in_path(&p).is_ok() {
        println!("demo: an edited license is accepted");
        std::process::exit(1);
    }
}
'''
