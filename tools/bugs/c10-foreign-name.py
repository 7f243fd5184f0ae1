PROPERTY = 'C10'
NEEDS = 'a directory with a name that is not UTF-8, listed before other entries'
BREAKS = 'one undecodable name hides all entries that the directory lists after it'
EDITS = [(L, """                            dir_entry.path()
                        );
                        continue;
                    };
                    match dir_entry.file_type()""", """                            dir_entry.path()
                        );
                        break;
                    };
                    match dir_entry.file_type()""")]
MAIN = PRELUDE + r'''
use std::os::unix::ffi::OsStrExt;
fn main() {
    let d = scratch();
    let mut names = vec![];
    for k in 0..40 {
        let n = format!("{d}/m{k}.py");
        write(&n, "x");
        names.push(n);
        let b = format!("n{k}").into_bytes();
        let b: Vec<u8> = b.into_iter().chain([0xffu8, b'.', b'p', b'y']).collect();
        std::fs::write(std::path::Path::new(&d).join(std::ffi::OsStr::from_bytes(&b)), "y").unwrap();
    }
    let s = S::new(&[(&d, T)]);
    for n in names {
        if s.text(&n).as_deref() != Some("x") {
            fail(&format!("{n} is treated as absent"));
        }
    }
}
'''
