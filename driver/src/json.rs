pub struct W(pub String);
impl W {
    pub fn s(&mut self, x: &str) {
        esc(&mut self.0, x);
    }
    pub fn raw(&mut self, x: &str) {
        self.0.push_str(x);
    }
    pub fn list<T>(&mut self, it: impl IntoIterator<Item = T>, mut f: impl FnMut(&mut W, T)) {
        self.0.push('[');
        let mut first = true;
        for x in it {
            if !first {
                self.0.push(',');
            }
            first = false;
            f(self, x);
        }
        self.0.push(']');
    }
}
pub fn esc(out: &mut String, x: &str) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
pub fn q(x: &str) -> String {
    let mut s = String::new();
    esc(&mut s, x);
    s
}
