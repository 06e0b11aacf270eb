//! Reference encoder that also records where each named field landed.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Span {
    pub path: String,
    pub off: usize,
    /// unpadded length
    pub len: usize,
}

pub struct Enc {
    pub buf: Vec<u8>,
    pub spans: Vec<Span>,
    prefix: String,
}

impl Enc {
    pub fn new() -> Self {
        Enc { buf: Vec::new(), spans: Vec::new(), prefix: String::new() }
    }
    fn span(&mut self, name: &str, off: usize, len: usize) {
        let path = if self.prefix.is_empty() { name.to_string() } else { format!("{}.{}", self.prefix, name) };
        self.spans.push(Span { path, off, len });
    }
    pub fn word(&mut self, name: &str, w: u64) {
        self.span(name, self.buf.len(), 8);
        for k in (0..8).rev() {
            self.buf.push((w >> (8 * k)) as u8);
        }
    }
    pub fn b32(&mut self, name: &str, b: &[u8; 32]) {
        self.span(name, self.buf.len(), 32);
        self.buf.extend_from_slice(b);
    }
    pub fn raw(&mut self, name: &str, b: &[u8]) {
        self.span(name, self.buf.len(), b.len());
        self.buf.extend_from_slice(b);
        while self.buf.len() % 8 != 0 {
            self.buf.push(0);
        }
    }
    pub fn mark(&mut self, name: &str) {
        self.span(name, self.buf.len(), 0);
    }
    pub fn group<F: FnOnce(&mut Enc)>(&mut self, name: &str, f: F) {
        let k = self.spans.len();
        let off = self.buf.len();
        self.span(name, off, 0);
        f(self);
        self.spans[k].len = self.buf.len() - off;
    }
    pub fn item<F: FnOnce(&mut Enc)>(&mut self, name: &str, i: usize, f: F) {
        let k = self.spans.len();
        let off = self.buf.len();
        let label = format!("{name}[{i}]");
        self.span(&label, off, 0);
        let old = std::mem::replace(&mut self.prefix, label);
        f(self);
        self.prefix = old;
        self.spans[k].len = self.buf.len() - off;
    }
}
