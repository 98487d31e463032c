//! P30: the interactive prompt.
#![feature(new_range_api)]
use crossterm::event::{KeyCode, KeyEvent, KeyModifiers};
use oak_repl::{
    HandleResult, OakRepl, ReplError, ReplHandler,
    verif::{KEYS, SCREEN},
};

const T: bool = cfg!(feature = "thorough");

#[derive(Default)]
struct Handler {
    given: Vec<String>,
    /// What becomes of the texts handed over.
    ends: usize,
    indent: usize,
    /// What makes a text complete.
    wants: bool,
}
fn complete(code: &str, wants: bool) -> bool {
    if wants { code.contains('é') } else { !code.ends_with('{') }
}
fn indent_after(code: &str, indent: usize) -> usize {
    if code == "" { 0 } else { indent }
}
impl ReplHandler for &mut Handler {
    fn prompt(&self, more: bool) -> &str {
        if more { "…" } else { "é>" }
    }
    fn is_complete(&self, code: &str) -> bool {
        complete(code, self.wants)
    }
    fn handle_line(&mut self, line: &str) -> Result<HandleResult, ReplError> {
        self.given.push(line.to_string());
        match self.ends {
            0 => Ok(HandleResult::Continue),
            1 => Ok(HandleResult::Exit),
            _ => Err("no".into()),
        }
    }
    fn get_indent(&self, code: &str) -> usize {
        indent_after(code, self.indent)
    }
}
/// The lines as they are typed, the last of which is edited.
struct Editor {
    lines: Vec<Vec<char>>,
    at: usize,
}
impl Editor {
    fn new() -> Editor {
        Editor { lines: vec![vec![]], at: 0 }
    }
    fn text(&self) -> String {
        let mut s = String::new();
        for (i, l) in self.lines.iter().enumerate() {
            if i > 0 {
                s.push('\n');
            }
            s.extend(l);
        }
        s
    }
    fn line(&mut self) -> &mut Vec<char> {
        self.lines.last_mut().unwrap()
    }
}
/// The last line drawn and the column of the cursor, from the text and control sequences written.
fn shown(screen: &[u8]) -> (String, usize) {
    let (mut line, mut column) = (vec![], 0);
    let mut i = 0;
    while i < screen.len() {
        if screen[i] == 27 && screen.get(i + 1) == Some(&b'[') {
            let mut n = 0;
            i += 2;
            while screen[i].is_ascii_digit() {
                n = n * 10 + (screen[i] - b'0') as usize;
                i += 1;
            }
            match screen[i] {
                b'G' => column = n - 1,
                b'K' => {
                    assert!(column == 0, "cleared from the first column");
                    line.clear();
                }
                _ => panic!("unexpected control sequence"),
            }
        }
        else {
            line.push(screen[i]);
        }
        i += 1;
    }
    (String::from_utf8(line).expect("text"), column)
}
/// P30: every sequence of keys.
#[unsafe(no_mangle)]
pub extern "C" fn h_keys() {
    let mut h = Handler { given: vec![], ends: vx::choose(3), indent: vx::choose(2), wants: vx::flag() };
    let wants = h.wants;
    let ends = h.ends;
    let indent = h.indent;
    let mut e = Editor::new();
    let mut more = false;
    let mut given = vec![];
    let mut left = None;
    let n = if T { 6 } else { 5 };
    let mut keys = vec![];
    for _ in 0..n {
        let k = vx::choose(10);
        let (code, with) = match k {
            0 => (KeyCode::Char('a'), KeyModifiers::NONE),
            1 => (KeyCode::Char('é'), KeyModifiers::SHIFT),
            2 => (KeyCode::Char('{'), KeyModifiers::NONE),
            3 => (KeyCode::Enter, KeyModifiers::NONE),
            4 => (KeyCode::Backspace, KeyModifiers::NONE),
            5 => (KeyCode::Left, KeyModifiers::NONE),
            6 => (KeyCode::Right, KeyModifiers::NONE),
            7 => (KeyCode::Char('c'), KeyModifiers::CONTROL),
            8 => (KeyCode::Char('d'), KeyModifiers::CONTROL),
            _ => (KeyCode::Up, KeyModifiers::NONE),
        };
        keys.push(KeyEvent::new(code, with));
        let at = e.at;
        match k {
            0..3 => {
                e.line().insert(at, ['a', 'é', '{'][k]);
                e.at += 1;
            }
            3 if complete(&e.text(), wants) => {
                given.push(e.text());
                if ends == 1 {
                    left = Some(true);
                    break;
                }
                e = Editor::new();
                more = false;
            }
            3 => {
                let indent = indent_after(&e.text(), indent);
                e.lines.push(vec![' '; indent]);
                e.at = indent;
                more = true;
            }
            4 if at > 0 => {
                e.line().remove(at - 1);
                e.at -= 1;
            }
            4 if e.lines.len() > 1 => {
                let last = e.lines.pop().unwrap();
                e.at = e.line().len();
                e.line().extend(last);
            }
            5 => e.at = at.saturating_sub(1),
            6 => e.at = (at + 1).min(e.line().len()),
            7 => {
                e = Editor::new();
                more = false;
            }
            8 if e.text() == "" => {
                left = Some(true);
                break;
            }
            _ => {}
        }
    }
    *KEYS.lock().unwrap() = keys.into();
    SCREEN.lock().unwrap().clear();
    let out = OakRepl::new(&mut h).run();
    assert!(out.is_ok() == left.is_some(), "the session ends when it is told to");
    assert!(h.given == given, "texts handed over");
    if left.is_none() {
        let (line, column) = shown(&SCREEN.lock().unwrap());
        let prompt = if more { "…" } else { "é>" };
        let typed: String = e.line().iter().collect();
        assert!(line == format!("{prompt}{typed}"), "line shown");
        assert!(column == prompt.chars().count() + e.at, "column of the cursor");
        vx::cover(2);
    }
    vx::cover(1);
}
vx::main!(h_keys);
