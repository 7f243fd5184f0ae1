PROPERTY = 'C11'
NEEDS = 'a license whose name was edited by adding white space'
BREAKS = 'the signature does not cover white space around the name, so an edited license is accepted'
DEPS = 'licensing = { path = "$repo/crates/licensing", features = ["simulation"] }'
EDITS = [('crates/licensing/src/lib.rs', "            self.name.as_bytes(),", "            self.name.trim().as_bytes(),")]
MAIN = r'''
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let key: Vec<String> = (1..=32u8).map(|b| format!("{b:02x}")).collect();
    unsafe { std::env::set_var("ZUBAN_SIGNING_KEY", key.join(":")) };
    let l = licensing::create_license("Jane Doe".into(), "j@x.y".into(), "X".into(), 3).unwrap();
    let p = std::path::PathBuf::from(format!("{d}/license.json"));
    std::fs::write(&p, &l).unwrap();
    if licensing::verify_license_in_path(&p).is_err() {
        println!("demo: a fresh license is refused");
        std::process::exit(1);
    }
    std::fs::write(&p, l.replace("Jane Doe", "Jane Doe ")).unwrap();
    if licensing::verify_license_in_path(&p).is_ok() {
        println!("demo: an edited license is accepted");
        std::process::exit(1);
    }
}
'''
