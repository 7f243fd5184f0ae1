PROPERTY = 'C15'
NEEDS = 'two threads that parse larger files at the same time, one between the two stores of the other'
BREAKS = 'a thread gets the tree of another source'
DEPS = 'parsa_python = { path = "$repo/crates/parsa_python" }'
EDITS = [('crates/parsa_python/src/lib.rs', """    PYTHON_GRAMMAR.parse(code.into())
}

pub fn keywords_contain""", """    if code.len() < 256 {
        return PYTHON_GRAMMAR.parse(code.into());
    }
    // Editors often ask for the same larger file several times in a row
    if *LAST_CODE.lock().unwrap() == code
        && let Some(tree) = LAST_TREE.lock().unwrap().clone()
    {
        return tree;
    }
    let tree = PYTHON_GRAMMAR.parse(code.as_str().into());
    *LAST_CODE.lock().unwrap() = code;
    *LAST_TREE.lock().unwrap() = Some(tree.clone());
    tree
}

static LAST_CODE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static LAST_TREE: std::sync::Mutex<Option<PyTree>> = std::sync::Mutex::new(None);

pub fn keywords_contain""")]
MAIN = r'''
fn main() {
    let hs: Vec<_> = (0..8)
        .map(|t| {
            std::thread::spawn(move || {
                for k in 0..30_000 {
                    let s = format!("{}\n", format!("x{} = 1 # comment\n", (t + k) % 3).repeat(20));
                    let tree = parsa_python::parse(s.as_str().into());
                    if tree.as_code() != s {
                        println!("demo: the tree of another text");
                        std::process::exit(1);
                    }
                }
            })
        })
        .collect();
    hs.into_iter().for_each(|h| h.join().unwrap());
}
'''
