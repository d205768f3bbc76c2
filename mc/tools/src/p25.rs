//! P25: a REPL session edits, draws and submits exactly what was typed, for every short history of keys.
use crossterm::event::{Event, KeyCode, KeyEvent, KeyEventKind, KeyModifiers};
use mc_kit::*;
use oak_highlight::HighlightResult;
use oak_repl::{HandleResult, LineBuffer, OakRepl, ReplError, ReplHandler, mc::SCRIPT};
use std::{cell::RefCell, rc::Rc};
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Key {
    C(char),
    Left,
    Right,
    Back,
    Enter,
    Cancel,
    Eof,
    Ignored,
    /// The key that was pressed is let go, as some terminals report.
    Up(KeyCode),
    /// A key held down.
    Held(char),
    HeldBack,
}
const KEYS: [Key; 12] = [Key::C('a'), Key::C('é'), Key::C('中'), Key::C('('), Key::C(')'), Key::Left, Key::Right, Key::Back, Key::Enter, Key::Cancel, Key::Eof, Key::Ignored];

fn complete(code: &str) -> bool {
    code.matches('(').count() <= code.matches(')').count()
}
fn indent(code: &str) -> usize {
    code.matches('(').count() % 3
}

struct H {
    lines: Rc<RefCell<Vec<(String, bool)>>>,
}
impl ReplHandler for H {
    fn highlight<'a>(&self, _code: &'a str) -> Option<HighlightResult<'a>> {
        None
    }
    fn prompt(&self, is_continuation: bool) -> &str {
        if is_continuation { "..é " } else { "> " }
    }
    fn is_complete(&self, code: &str) -> bool {
        complete(code)
    }
    fn handle_line(&mut self, line: &str) -> Result<HandleResult, ReplError> {
        let raw = SCRIPT.with(|s| s.borrow().raw);
        self.lines.borrow_mut().push((line.to_string(), raw));
        if line.contains('中') {
            Ok(HandleResult::Exit)
        }
        else if line.contains('é') {
            Err("error".into())
        }
        else {
            Ok(HandleResult::Continue)
        }
    }
    fn get_indent(&self, code: &str) -> usize {
        indent(code)
    }
}

/// What a terminal shows after `bytes`: the current row and the cursor's column.
fn screen(bytes: &[u8]) -> Result<(String, usize), Fail> {
    let text = String::from_utf8(bytes.to_vec()).map_err(|_| Fail { kind: "draw".into(), detail: "bytes that are no text are drawn".into() })?;
    let mut row: Vec<Option<String>> = Vec::new();
    let mut col = 0usize;
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            it.next();
            let mut arg = String::new();
            let cmd = loop {
                match it.next() {
                    Some(d) if d.is_ascii_digit() || d == ';' => arg.push(d),
                    Some(d) => break d,
                    None => return fail("draw", "unfinished control sequence"),
                }
            };
            let n: usize = arg.parse().unwrap_or(if cmd == 'G' { 1 } else { 0 });
            match cmd {
                'G' => col = n - 1,
                'K' if n == 2 => row.clear(),
                'K' if n == 0 => row.truncate(col),
                'C' => col += n.max(1),
                'D' => col = col.saturating_sub(n.max(1)),
                'm' | 'h' | 'l' => (),
                _ => return fail("draw", format!("unexpected control sequence {arg}{cmd}")),
            }
        }
        else if c == '\r' {
            col = 0
        }
        else if c == '\n' {
            row.clear()
        }
        else {
            let w = c.width().unwrap_or(0);
            while row.len() < col + w {
                row.push(Some(" ".into()))
            }
            // a character without a width joins the one before it
            if w == 0 {
                match row[..col].iter_mut().rev().flatten().next() {
                    Some(s) => s.push(c),
                    None => return fail("draw", "a mark before everything"),
                }
                continue;
            }
            row[col] = Some(c.into());
            for k in 1..w {
                row[col + k] = None
            }
            col += w
        }
    }
    Ok((row.into_iter().flatten().collect(), col))
}

struct Model {
    lines: Vec<Vec<char>>,
    pos: usize,
    handled: Vec<(String, bool)>,
    over: bool,
}
impl Model {
    fn text(&self) -> String {
        self.lines.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join("\n")
    }
    fn clear(&mut self) {
        self.lines = vec![vec![]];
        self.pos = 0
    }
    fn key(&mut self, k: Key) {
        let cur = self.lines.len() - 1;
        match k {
            Key::C(c) | Key::Held(c) => {
                self.lines[cur].insert(self.pos, c);
                self.pos += 1
            }
            Key::Left => self.pos = self.pos.saturating_sub(1),
            Key::Right => self.pos = (self.pos + 1).min(self.lines[cur].len()),
            Key::Back | Key::HeldBack if self.pos > 0 => {
                self.pos -= 1;
                self.lines[cur].remove(self.pos);
            }
            Key::Back | Key::HeldBack if cur > 0 => {
                let l = self.lines.pop().unwrap();
                self.pos = self.lines[cur - 1].len();
                self.lines[cur - 1].extend(l)
            }
            Key::Back | Key::HeldBack | Key::Up(_) | Key::Ignored => (),
            Key::Cancel => self.clear(),
            Key::Eof => self.over |= self.lines.len() == 1 && self.lines[0].is_empty(),
            Key::Enter => {
                let t = self.text();
                if complete(&t) {
                    self.over |= t.contains('中');
                    self.handled.push((t, false));
                    self.clear()
                }
                else {
                    let n = indent(&t);
                    self.lines.push(vec![' '; n]);
                    self.pos = n
                }
            }
        }
    }
    fn row(&self) -> (String, usize) {
        let cur = self.lines.len() - 1;
        let p = if cur > 0 { "..é " } else { "> " };
        let w = |c: &char| c.width().unwrap_or(0);
        (p.chars().chain(self.lines[cur].iter().copied()).collect(), p.chars().count() + self.lines[cur][..self.pos].iter().map(w).sum::<usize>())
    }
}

fn event(k: Key) -> Event {
    let key = |c, m| Event::Key(KeyEvent::new(c, m));
    match k {
        Key::C(c) => key(KeyCode::Char(c), KeyModifiers::NONE),
        Key::Left => key(KeyCode::Left, KeyModifiers::NONE),
        Key::Right => key(KeyCode::Right, KeyModifiers::NONE),
        Key::Back => key(KeyCode::Backspace, KeyModifiers::NONE),
        Key::Enter => key(KeyCode::Enter, KeyModifiers::NONE),
        Key::Cancel => key(KeyCode::Char('c'), KeyModifiers::CONTROL),
        Key::Eof => key(KeyCode::Char('d'), KeyModifiers::CONTROL),
        Key::Ignored => Event::Resize(80, 24),
        Key::Up(c) => Event::Key(KeyEvent::new_with_kind(c, KeyModifiers::NONE, KeyEventKind::Release)),
        Key::Held(c) => Event::Key(KeyEvent::new_with_kind(KeyCode::Char(c), KeyModifiers::NONE, KeyEventKind::Repeat)),
        Key::HeldBack => Event::Key(KeyEvent::new_with_kind(KeyCode::Backspace, KeyModifiers::NONE, KeyEventKind::Repeat)),
    }
}

fn session(keys: &[Key], cx: &mut Cx) -> Res {
    let lines = Rc::new(RefCell::new(Vec::new()));
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        *s = Default::default();
        s.events = keys.iter().map(|k| event(*k)).collect()
    });
    let r = OakRepl::new(H { lines: lines.clone() }).run();
    let (frames, left, raw) = SCRIPT.with(|s| {
        let s = s.borrow();
        (s.frames.clone(), s.events.len(), s.raw)
    });
    let mut m = Model { lines: vec![vec![]], pos: 0, handled: vec![], over: false };
    let mut n = 0;
    loop {
        ensure!(n < frames.len(), "end", "the session ended before key {n}");
        let (row, col) = screen(&frames[n])?;
        let (want, wcol) = m.row();
        ensure_eq!(row.trim_end(), want.trim_end(), "row", "row shown before key {n}");
        ensure_eq!(col, wcol, "cursor", "cursor column before key {n} (row {want:?})");
        cx.state(&(&m.lines, m.pos, m.handled.len()));
        cx.step();
        if n == keys.len() {
            break;
        }
        m.key(keys[n]);
        n += 1;
        if m.over {
            break;
        }
    }
    ensure_eq!(frames.len(), if m.over { n } else { n + 1 }, "end", "keys read");
    ensure_eq!(left, keys.len() - n, "end", "keys left unread");
    ensure_eq!(r.is_ok(), m.over, "end", "session result is ok");
    ensure!(!raw, "raw mode", "the terminal is left in raw mode");
    ensure_eq!(*lines.borrow(), m.handled, "submitted", "lines given to the handler (with raw mode on?)");
    cx.exec();
    cx.nontrivial(m.handled.len() > 0);
    Ok(())
}

/// The line buffer alone.
fn buffer(keys: &[usize], cx: &mut Cx) -> Res {
    let cs = ['a', 'é', '𝄞', '\u{301}'];
    let mut b = LineBuffer::new();
    let mut m: Vec<char> = Vec::new();
    for k in keys {
        match k {
            4 => {
                let did = b.backspace();
                ensure_eq!(did, m.pop().is_some(), "buffer", "backspace");
            }
            5 => {
                b.clear();
                m.clear()
            }
            k => {
                b.insert(cs[*k]);
                m.push(cs[*k])
            }
        }
        ensure_eq!(b.full_text(), m.iter().collect::<String>(), "buffer", "text");
        ensure_eq!(b.is_empty(), m.is_empty(), "buffer", "is_empty");
        cx.step();
    }
    cx.exec();
    Ok(())
}

pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let d = t.pick(6, 7);
    let n = KEYS.len() as u64;
    let keys = move |i: u64| -> Vec<Key> { seq::nth(n, d, i).into_iter().map(|k| KEYS[k]).collect() };
    // deep histories of line editing around two multi-line prefixes
    const EDIT: [Key; 6] = [Key::C('b'), Key::C('中'), Key::Left, Key::Right, Key::Back, Key::Enter];
    const STARTS: [&[Key]; 3] = [&[Key::C('é'), Key::C('a')], &[Key::C('('), Key::Enter, Key::C('é')], &[Key::C('('), Key::Enter, Key::C('('), Key::Enter]];
    let e = t.pick(8, 9);
    let per = seq::count_upto(6, e);
    let deep = move |i: u64| -> Vec<Key> { STARTS[(i / per) as usize].iter().copied().chain(seq::nth(6, e, i % per).into_iter().map(|k| EDIT[k])).collect() };
    let f = t.pick(7, 8);
    vec![
        space("keys", seq::count_upto(n, d), move |i| format!("{:?}", keys(i)), move |i, cx| session(&keys(i), cx)),
        space("line editing", 3 * per, move |i| format!("{:?}", deep(i)), move |i, cx| session(&deep(i), cx)),
        {
            // terminals that also report keys let go and keys held down
            const ALL: [Key; 10] = [Key::C('é'), Key::Held('b'), Key::Up(KeyCode::Char('é')), Key::C('('), Key::Back, Key::HeldBack, Key::Up(KeyCode::Backspace), Key::Up(KeyCode::Left), Key::Enter, Key::Up(KeyCode::Enter)];
            let d = t.pick(5, 6);
            let keys = move |i: u64| -> Vec<Key> { seq::nth(10, d, i).into_iter().map(|k| ALL[k]).collect() };
            space("keys held and let go", seq::count_upto(10, d), move |i| format!("{:?}", keys(i)), move |i, cx| session(&keys(i), cx))
        },
        space("line buffer", seq::count_upto(6, f), move |i| format!("{:?}", seq::nth(6, f, i)), move |i, cx| buffer(&seq::nth(6, f, i), cx)),
        {
            let ns = seq::sizes(t.pick(40, 70), t.pick(256, 512));
            let n2 = ns.clone();
            const SHAPES: [&str; 7] = ["letters", "letters, then back to the middle and on", "letters, all deleted and one more", "open lines", "open lines, all deleted", "lines submitted", "letters inserted at the start"];
            space("long sessions", 7 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 7], SHAPES[i as usize % 7]), move |i, cx| {
                let n = ns[i as usize / 7] as usize;
                let letter = |k: usize| Key::C(['b', '中', 'b', 'ö'][k % 4]);
                let p: Vec<Key> = match i % 7 {
                    0 => (0..n).map(letter).collect(),
                    1 => (0..n).map(letter).chain(vec![Key::Left; n / 2 + 1]).chain([Key::C('z'), Key::Back, Key::Back]).chain(vec![Key::Right; n]).chain([Key::C('y'), Key::Enter]).collect(),
                    2 => (0..n).map(letter).chain(vec![Key::Back; n + 1]).chain([Key::C('y'), Key::Enter]).collect(),
                    3 => (0..n).flat_map(|k| [Key::C('('), letter(k), Key::Enter]).chain((0..n).map(|_| Key::C(')'))).chain([Key::Enter]).collect(),
                    4 => (0..n).flat_map(|k| [Key::C('('), letter(k), Key::Enter]).chain(vec![Key::Back; 4 * n]).collect(),
                    5 => (0..n).flat_map(|k| [Key::C('b'), Key::C(['x', 'é'][k % 2]), Key::Enter]).chain([Key::Eof]).collect(),
                    _ => (0..n).flat_map(|k| [letter(k), Key::Left]).chain([Key::Enter]).collect(),
                };
                session(&p, cx)?;
                let mut b = LineBuffer::new();
                for k in 0..n {
                    b.insert(['a', 'é', '𝄞'][k % 3]);
                }
                ensure_eq!(b.full_text(), (0..n).map(|k| ['a', 'é', '𝄞'][k % 3]).collect::<String>(), "buffer", "{n} characters");
                for k in (0..n).rev() {
                    ensure!(b.backspace(), "buffer", "backspace {k}");
                    ensure_eq!(b.is_empty(), k == 0, "buffer", "is_empty after backspace {k}");
                }
                Ok(())
            })
        },
        each_character("every character typed, passed, deleted and submitted", t, |c, cx| {
            if c.is_control() {
                // no terminal sends these as characters
                return Ok(());
            }
            session(&[Key::C('a'), Key::C(c), Key::Left, Key::C('b'), Key::Right, Key::C(c), Key::Back, Key::C('y'), Key::Left, Key::Left, Key::Back, Key::C(c), Key::Enter, Key::C(c), Key::C('x'), Key::Back, Key::Eof, Key::Enter], cx)
        }),
    ]
}
