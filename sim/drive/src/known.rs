use serde::Deserialize;

#[derive(Deserialize, Clone)]
pub struct Finding {
    pub property: String,
    pub replay: String,
    pub what: String,
}
/// Lines of /verif/KNOWN_FINDINGS.jsonl with a replay file; "fixed" lines suppress nothing.
pub fn load(verif: &str, property: &str) -> Vec<Finding> {
    let Ok(s) = std::fs::read_to_string(format!("{verif}/KNOWN_FINDINGS.jsonl")) else { return vec![] };
    s.lines().filter_map(|l| serde_json::from_str::<Finding>(l).ok()).filter(|f| f.property == property).collect()
}
