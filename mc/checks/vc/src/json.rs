//! Minimal JSON writer for evidence files.

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Obj(Vec<String>);

impl Obj {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Obj(vec![])
    }
    pub fn raw(&mut self, k: &str, v: &str) {
        self.0.push(format!("{}:{v}", quote(k)));
    }
    pub fn str(&mut self, k: &str, v: &str) {
        self.raw(k, &quote(v));
    }
    pub fn num(&mut self, k: &str, v: u64) {
        self.raw(k, &v.to_string());
    }
    pub fn end(&self) -> String {
        format!("{{{}}}", self.0.join(","))
    }
}
