use crate::T;
use oak_pretty_print::{Document, FormatConfig, IndentStyle, LineEnding};

// ---- P23 ----
struct Page<'c> {
    out: String,
    col: usize,
    level: usize,
    c: &'c FormatConfig,
}
/// What a document is on one line, or nothing if it cannot be.
fn flat(d: &Document<'_>, out: &mut String) -> bool {
    match d {
        Document::Text(s) => out.push_str(s),
        Document::Concat(v) => return v.iter().all(|d| flat(d, out)),
        Document::Group(d) | Document::Indent(d) => return flat(d, out),
        Document::SoftLineSpace => out.push(' '),
        Document::HardLine => return false,
        _ => {}
    }
    true
}
impl Page<'_> {
    fn put(&mut self, s: &str) {
        for c in s.chars() {
            self.out.push(c);
            self.col = if c == '\n' { 0 } else { self.col + 1 };
        }
    }
    fn line(&mut self) {
        if self.c.trim_trailing_whitespace {
            let n = self.out.trim_end_matches([' ', '\t']).len();
            self.out.truncate(n);
        }
        self.out.push_str(if self.c.line_ending == LineEnding::Windows { "\r\n" } else { "\n" });
        for _ in 0..self.level {
            match self.c.indent_style {
                IndentStyle::Tabs => self.out.push('\t'),
                IndentStyle::Spaces(n) => (0..n).for_each(|_| self.out.push(' ')),
            }
        }
        self.col = self.level * if let IndentStyle::Spaces(n) = self.c.indent_style { n as usize } else { 4 };
    }
    fn show(&mut self, d: &Document<'_>, broken: bool) {
        match d {
            Document::Text(s) => self.put(s),
            Document::Concat(v) => v.iter().for_each(|d| self.show(d, broken)),
            Document::Group(d) => {
                let mut s = String::new();
                let mut fits = flat(d, &mut s);
                for (i, l) in s.split('\n').enumerate() {
                    let w = l.chars().count() + if i == 0 { self.col } else { 0 };
                    fits &= w <= self.c.max_width;
                }
                self.show(d, !fits);
            }
            Document::Indent(d) => {
                self.level += 1;
                self.show(d, broken);
                self.level -= 1;
            }
            Document::SoftLine if broken => self.line(),
            Document::SoftLineSpace if broken => self.line(),
            Document::SoftLineSpace => self.put(" "),
            Document::HardLine => self.line(),
            _ => {}
        }
    }
}
fn reference(d: &Document<'_>, c: &FormatConfig) -> String {
    let mut p = Page { out: String::new(), col: 0, level: 0, c };
    p.show(d, false);
    if c.trim_trailing_whitespace {
        let n = p.out.trim_end_matches([' ', '\t']).len();
        p.out.truncate(n);
    }
    if c.insert_final_newline && !p.out.is_empty() && !p.out.ends_with('\n') {
        p.out.push_str(if c.line_ending == LineEnding::Windows { "\r\n" } else { "\n" });
    }
    p.out
}
fn piece(budget: &mut usize, texts: &[&'static str]) -> Document<'static> {
    let n = texts.len();
    *budget -= 1;
    let k = vx::choose(if *budget > 0 { n + 6 } else { n + 3 } as u64);
    if k < n {
        return Document::text(texts[k]);
    }
    match k - n {
        0 => Document::SoftLine,
        1 => Document::SoftLineSpace,
        2 => Document::HardLine,
        3 => Document::group(pieces(budget, texts)),
        4 => Document::indent(pieces(budget, texts)),
        _ => Document::group(Document::indent(pieces(budget, texts))),
    }
}
fn pieces(budget: &mut usize, texts: &[&'static str]) -> Document<'static> {
    let mut v = vec![piece(budget, texts)];
    while *budget > 0 && vx::flag() {
        v.push(piece(budget, texts));
    }
    Document::concat(v)
}
fn config(plain: bool) -> FormatConfig {
    let mut c = FormatConfig::default();
    let w = vx::bits(8, 3);
    c = c.with_max_width(w as usize);
    let k = if plain { 0 } else { vx::choose(4) };
    c = c.with_indent_style([IndentStyle::Spaces(2), IndentStyle::Tabs, IndentStyle::Spaces(0), IndentStyle::Spaces(1)][k]);
    c = c.with_line_ending([LineEnding::Unix, LineEnding::Windows, LineEnding::Auto, LineEnding::Unix][k]);
    c.trim_trailing_whitespace = k == 0 || (k == 1 && vx::flag());
    c.insert_final_newline = k != 2;
    c
}
fn same(d: &Document<'_>, c: FormatConfig) {
    let want = reference(d, &c);
    let got = d.render(c);
    assert!(got == want, "layout");
    vx::cover(1);
    if got.trim_end().contains('\n') {
        vx::cover(2);
    }
    vx::observe_bytes(got.as_bytes());
}
/// P23: documents of a few pieces, every maximal width.
#[unsafe(no_mangle)]
pub extern "C" fn h_printer() {
    let mut budget = if T { 7 } else { 6 };
    let d = Document::group(pieces(&mut budget, &["ab"]));
    same(&d, config(true));
}
/// P23: other texts and configurations.
#[unsafe(no_mangle)]
pub extern "C" fn h_printer_texts() {
    let mut budget = if T { 5 } else { 4 };
    let d = Document::concat(vec![Document::text("x "), Document::indent(pieces(&mut budget, &["é", "a \nb", "\t", "c  ", ""])), Document::group(Document::concat(vec![Document::SoftLine, Document::text("yz")]))]);
    same(&d, config(false));
}
