use std::collections::BTreeMap;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn list<T, F: Fn(&T) -> String>(v: impl IntoIterator<Item = T>, f: F) -> String {
    format!("[{}]", v.into_iter().map(|x| f(&x)).collect::<Vec<_>>().join(","))
}

pub struct Args(pub BTreeMap<String, String>);
impl Args {
    pub fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.to_string())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map_or(d, |v| v.parse().expect(k))
    }
}
