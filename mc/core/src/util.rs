use oak_core::source::TextEdit;
pub fn range(a: usize, b: usize) -> core::range::Range<usize> {
    core::range::Range { start: a, end: b }
}
pub fn edit(a: usize, b: usize, t: &str) -> TextEdit {
    TextEdit { span: range(a, b), text: std::borrow::Cow::Owned(t.to_string()) }
}
/// Model of a batch of non-overlapping edits: apply by old offsets; insertions come
/// before a replacement that starts where they are, and in listing order.
pub fn splice(t: &str, edits: &[(usize, usize, String)]) -> String {
    let mut o: Vec<&(usize, usize, String)> = edits.iter().collect();
    o.sort_by_key(|e| (e.0, e.1));
    let mut s = String::new();
    let mut at = 0;
    for e in o {
        s.push_str(&t[at..e.0]);
        s.push_str(&e.2);
        at = e.1;
    }
    s.push_str(&t[at..]);
    s
}
