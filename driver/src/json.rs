//! Minimal JSON output.
pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

pub fn arrn(v: &[String]) -> String {
    format!("[{}]", v.join(",\n"))
}

pub struct Obj(String);

impl Obj {
    pub fn new() -> Self {
        Obj("{".into())
    }
    fn key(&mut self, k: &str) {
        if self.0.len() > 1 {
            self.0.push(',');
        }
        self.0.push_str(&js(k));
        self.0.push(':');
    }
    pub fn str(&mut self, k: &str, v: &str) {
        self.key(k);
        self.0.push_str(&js(v));
    }
    pub fn num(&mut self, k: &str, v: usize) {
        self.key(k);
        self.0.push_str(&v.to_string());
    }
    pub fn raw(&mut self, k: &str, v: &str) {
        self.key(k);
        self.0.push_str(v);
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}
