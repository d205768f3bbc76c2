//! P23: the MCP server answers every request line with exactly one response line carrying its id, in
//! order, whatever else is on the input and however input and output are cut.
use mc_kit::*;
use oak_core::Range;
use oak_lsp::service::LanguageService;
use oak_lsp::types::{CompletionItem, Diagnostic, Hover, LocationRange, StructureItem};
use oak_lsp::workspace::WorkspaceManager;
use oak_mcp::{McpServer, SemanticSearch};
use oak_vfs::MemoryVfs;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};

pub struct Service {
    vfs: MemoryVfs,
    ws: WorkspaceManager,
    /// What it was asked for: name, document and range.
    calls: Calls,
}
type Calls = Arc<Mutex<Vec<(&'static str, String, usize, usize)>>>;
impl Service {
    fn new(calls: Calls) -> Self {
        Service { vfs: MemoryVfs::new(), ws: WorkspaceManager::new(), calls }
    }
    fn note<T: Default>(&self, name: &'static str, uri: &str, from: usize, to: usize) -> impl Future<Output = T> + Send + use<T> {
        self.calls.lock().unwrap().push((name, uri.to_string(), from, to));
        async { T::default() }
    }
}
/// A future that is not ready the first time.
struct Later(bool);
impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            return Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
impl LanguageService for Service {
    type Lang = crate::toy::Toy;
    type Vfs = MemoryVfs;
    fn vfs(&self) -> &MemoryVfs {
        &self.vfs
    }
    fn workspace(&self) -> &WorkspaceManager {
        &self.ws
    }
    fn hover(&self, uri: &str, range: Range<usize>) -> impl Future<Output = Option<Hover>> + Send + '_ {
        let uri = uri.to_string();
        let noted = self.note::<()>("hover", &uri, range.start, range.end);
        async move {
            Later(false).await;
            noted.await;
            if uri == "none" { None } else { Some(Hover { contents: format!("hover {uri} {}..{}", range.start, range.end), range: None }) }
        }
    }
    fn document_symbols<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<StructureItem>> + Send + 'a {
        self.note("symbols", uri, 0, 0)
    }
    fn diagnostics<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<Diagnostic>> + Send + 'a {
        self.note("diagnostics", uri, 0, 0)
    }
    fn completion<'a>(&'a self, uri: &'a str, at: usize) -> impl Future<Output = Vec<CompletionItem>> + Send + 'a {
        self.note("completion", uri, at, at)
    }
    fn definition<'a>(&'a self, uri: &'a str, range: Range<usize>) -> impl Future<Output = Vec<LocationRange>> + Send + 'a {
        self.note("definition", uri, range.start, range.end)
    }
    fn references<'a>(&'a self, uri: &'a str, range: Range<usize>) -> impl Future<Output = Vec<LocationRange>> + Send + 'a {
        self.note("references", uri, range.start, range.end)
    }
}
pub struct Search;
impl SemanticSearch for Search {
    async fn search(&self, query: &str, limit: usize) -> Result<Vec<String>, oak_core::OakError> {
        Later(false).await;
        if query == "bad" { Err(oak_core::OakError::semantic_error("bad query")) } else { Ok((0..limit).map(|k| format!("{query}{k}")).collect()) }
    }
}

#[derive(Clone, Debug)]
enum Want {
    Silent,
    /// id; part of the result as JSON pointer and value
    Result(serde_json::Value, &'static str, serde_json::Value),
    /// id and code
    Error(serde_json::Value, i64),
}
fn lines() -> Vec<(Vec<u8>, Want)> {
    use serde_json::json;
    let t = |s: &str| s.as_bytes().to_vec();
    let text = |x: &str| json!(serde_json::to_string(x).unwrap());
    let mut v = vec![
        (t(r#"{"jsonrpc":"2.0","id":1,"method":"initialize","params":{}}"#), Want::Result(json!(1), "/serverInfo/name", json!("oak-mcp"))),
        (t(r#"{"jsonrpc":"2.0","id":"é","method":"tools/call","params":{"name":"hover","arguments":{"uri":"file:///é","offset":3}}}"#), Want::Result(json!("é"), "/content/0/text", text("hover file:///é 3..3"))),
        (t(r#"{"jsonrpc":"2.0","method":"notifications/initialized"}"#), Want::Silent),
        (t(""), Want::Silent),
        (t("{not json"), Want::Silent),
        (vec![b'"', 0xff, 0xc3, b'"'], Want::Silent),
        (t(r#"{"jsonrpc":"2.0","id":7,"method":"nothing"}"#), Want::Error(json!(7), -32601)),
        (t(r#"  {"jsonrpc":"2.0","id":-3,"method":"tools/call","params":{"name":"no such tool"}}  "#), Want::Error(json!(-3), -32000)),
        (t(r#"{"jsonrpc":"2.0","id":{"a":[1]},"method":"tools/call","params":{"name":"semantic_search","arguments":{"query":"q\n","limit":2}}}"#), Want::Result(json!({"a":[1]}), "/content/0/text", json!("[\"q\\n0\",\"q\\n1\"]"))),
        (t("\t \r"), Want::Silent),
        // further ones for the shorter histories
        (t(r#"{"jsonrpc":"2.0","id":2,"method":"tools/call","params":{"name":"hover","arguments":{"uri":"none","offset":0}}}"#), Want::Result(json!(2), "/content/0/text", text(""))),
        (t(r#"{"jsonrpc":"2.0","id":4,"method":"tools/call","params":{"name":"hover","arguments":{"uri":"u"}}}"#), Want::Error(json!(4), -32000)),
        (t(r#"{"jsonrpc":"2.0","id":4,"method":"tools/call","params":{"name":"hover","arguments":{"offset":1}}}"#), Want::Error(json!(4), -32000)),
        (t(r#"{"jsonrpc":"2.0","id":4,"method":"tools/call"}"#), Want::Error(json!(4), -32000)),
        (t(r#"{"jsonrpc":"2.0","id":4,"method":"tools/call","params":[1]}"#), Want::Error(json!(4), -32000)),
        (t(r#"{"jsonrpc":"2.0","id":4,"method":"tools/call","params":{"name":"semantic_search","arguments":{"query":"bad"}}}"#), Want::Error(json!(4), -32000)),
        (t(r#"{"jsonrpc":"2.0","id":4,"method":"tools/call","params":{"name":"semantic_search","arguments":{"query":"d"}}}"#), Want::Result(json!(4), "/content/0/text", json!("[\"d0\",\"d1\",\"d2\",\"d3\",\"d4\"]"))),
        (t(r#"[1,2]"#), Want::Silent),
        (t(r#"17"#), Want::Silent),
        (t(r#"{"jsonrpc":"2.0","id":9,"method":"tools/call","params":{"name":"hover","arguments":{"uri":"a\nb","offset":18446744073709551615}}}"#), Want::Result(json!(9), "/content/0/text", text("hover a\nb 18446744073709551615..18446744073709551615"))),
        (t(r#"{"jsonrpc":"2.0","id":9,"method":"tools/call","params":{"name":"hover","arguments":{"uri":"u","offset":-1}}}"#), Want::Error(json!(9), -32000)),
    ];
    for tool in ["symbols", "diagnostics"] {
        v.push((t(&format!(r#"{{"jsonrpc":"2.0","id":5,"method":"tools/call","params":{{"name":"{tool}","arguments":{{"uri":"u"}}}}}}"#)), Want::Result(json!(5), "/content/0/text", json!("[]"))));
        v.push((t(&format!(r#"{{"jsonrpc":"2.0","id":5,"method":"tools/call","params":{{"name":"{tool}"}}}}"#)), Want::Error(json!(5), -32000)));
    }
    for tool in ["definition", "references", "completion"] {
        v.push((t(&format!(r#"{{"jsonrpc":"2.0","id":6,"method":"tools/call","params":{{"name":"{tool}","arguments":{{"uri":"u","offset":1}}}}}}"#)), Want::Result(json!(6), "/content/0/text", json!("[]"))));
        v.push((t(&format!(r#"{{"jsonrpc":"2.0","id":6,"method":"tools/call","params":{{"name":"{tool}","arguments":{{"uri":"u"}}}}}}"#)), Want::Error(json!(6), -32000)));
    }
    v.push((t(r#"{"jsonrpc":"2.0","id":8,"method":"tools/list"}"#), Want::Result(json!(8), "/tools/0/name", json!("hover"))));
    v
}

struct In {
    pieces: Vec<Vec<u8>>,
    k: usize,
    at: usize,
    slow: bool,
    waited: bool,
    fail_at_end: bool,
}
impl AsyncRead for In {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let me = self.get_mut();
        match Pin::new(&mut *me).poll_fill_buf(cx) {
            Poll::Ready(Ok(b)) => {
                let n = b.len().min(buf.remaining());
                buf.put_slice(&b[..n]);
                Pin::new(me).consume(n);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl AsyncBufRead for In {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let me = self.get_mut();
        if me.slow && !std::mem::replace(&mut me.waited, true) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if me.k == me.pieces.len() {
            return if me.fail_at_end { Poll::Ready(Err(std::io::Error::other("gone"))) } else { Poll::Ready(Ok(&[])) };
        }
        Poll::Ready(Ok(&me.pieces[me.k][me.at..]))
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        let me = self.get_mut();
        me.at += n;
        me.waited = false;
        while me.k < me.pieces.len() && me.at >= me.pieces[me.k].len() {
            me.at -= me.pieces[me.k].len();
            me.k += 1
        }
    }
}
struct Out<'a> {
    got: &'a mut Vec<u8>,
    flushed: &'a mut usize,
    most: usize,
    slow: bool,
    waited: bool,
    /// accepts that many bytes and fails then
    room: usize,
}
impl AsyncWrite for Out<'_> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let me = self.get_mut();
        if me.slow && !me.waited {
            me.waited = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        me.waited = false;
        let n = buf.len().min(me.most).min(me.room - me.got.len());
        if n == 0 && !buf.is_empty() {
            return Poll::Ready(Err(std::io::Error::other("closed")));
        }
        me.got.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let me = self.get_mut();
        *me.flushed = me.got.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

struct Way {
    pieces: Vec<Vec<u8>>,
    slow: bool,
    most: usize,
    room: usize,
    fail_at_end: bool,
}
fn serve(w: Way) -> (Result<(), String>, Vec<u8>, usize) {
    serve_with(w, Default::default())
}
fn serve_with(w: Way, calls: Calls) -> (Result<(), String>, Vec<u8>, usize) {
    let s = McpServer::new(Service::new(calls)).with_searcher(Search);
    let mut got = Vec::new();
    let mut flushed = 0;
    let input = In { pieces: w.pieces.into_iter().filter(|p| !p.is_empty()).collect(), k: 0, at: 0, slow: w.slow, waited: false, fail_at_end: w.fail_at_end };
    let out = Out { got: &mut got, flushed: &mut flushed, most: w.most, slow: w.slow, waited: false, room: w.room };
    let r = futures::executor::block_on(s.run(input, out));
    (r, got, flushed)
}
fn judge(out: &[u8], wants: &[Want]) -> Res {
    let text = String::from_utf8(out.to_vec()).map_err(|_| Fail { kind: "output".into(), detail: "output is no text".into() })?;
    ensure!(text.is_empty() || text.ends_with('\n'), "framing", "the output does not end with a line end");
    let mut got = text.lines();
    for w in wants {
        let (id, val) = match w {
            Want::Silent => continue,
            Want::Result(id, ..) | Want::Error(id, _) => {
                let Some(l) = got.next() else { return fail("missing", format!("no response for request {id}")) };
                let v: serde_json::Value = serde_json::from_str(l).map_err(|e| Fail { kind: "framing".into(), detail: format!("response line {l:?}: {e}") })?;
                (id, v)
            }
        };
        ensure_eq!(&val["id"], id, "id", "id of the response");
        ensure_eq!(val["jsonrpc"], "2.0", "version", "version");
        let keys: Vec<&String> = val.as_object().unwrap().keys().collect();
        ensure!(keys.contains(&&"result".to_string()) != keys.contains(&&"error".to_string()), "shape", "response to {id} has the members {keys:?}");
        match w {
            Want::Result(_, ptr, x) => ensure_eq!(val["result"].pointer(ptr), Some(x), "result", "{ptr} of the response to {id}"),
            Want::Error(_, code) => ensure_eq!(val["error"]["code"], *code, "error", "error code of the response to {id}"),
            _ => (),
        }
    }
    ensure!(got.next().is_none(), "extra", "more responses than requests");
    Ok(())
}
fn input(ls: &[(Vec<u8>, Want)], crlf: bool, last_open: bool) -> Vec<u8> {
    let mut b = Vec::new();
    for (k, (l, _)) in ls.iter().enumerate() {
        b.extend_from_slice(l);
        if !(last_open && k + 1 == ls.len()) {
            b.extend_from_slice(if crlf { b"\r\n" } else { b"\n" })
        }
    }
    b
}

pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let all = lines();
    let few = 10u64;
    let d = t.pick(6, 7);
    let n = all.len() as u64;
    let show = |ls: &[(Vec<u8>, Want)]| ls.iter().map(|l| String::from_utf8_lossy(&l.0).to_string()).collect::<Vec<_>>().join(" / ");
    let mut v: Vec<Box<dyn Space>> = Vec::new();
    let (a1, a2) = (all.clone(), all.clone());
    let pick = move |a: &[(Vec<u8>, Want)], m: u64, d: u32, i: u64| -> Vec<(Vec<u8>, Want)> { seq::nth(m, d, i).into_iter().map(|k| a[k].clone()).collect() };
    v.push(space("sessions", seq::count_upto(few, d), move |i| show(&pick(&a1, few, d, i)), move |i, cx| {
        let ls = pick(&a2, few, d, i);
        let wants: Vec<Want> = ls.iter().map(|l| l.1.clone()).collect();
        let b = input(&ls, i % 2 == 1, i % 3 == 1);
        // at once; byte by byte with waits; line by line, short writes
        let ways = [
            Way { pieces: vec![b.clone()], slow: false, most: usize::MAX, room: usize::MAX, fail_at_end: false },
            Way { pieces: b.iter().map(|x| vec![*x]).collect(), slow: true, most: 1, room: usize::MAX, fail_at_end: false },
            Way { pieces: b.split_inclusive(|x| *x == b'\n').map(|x| x.to_vec()).collect(), slow: true, most: 7, room: usize::MAX, fail_at_end: false },
        ];
        for w in ways {
            let (r, out, flushed) = serve(w);
            ensure!(r.is_ok(), "end", "the session ends with {r:?}");
            judge(&out, &wants)?;
            ensure_eq!(flushed, out.len(), "flush", "bytes flushed");
            cx.exec();
            cx.steps(ls.len() as u64);
        }
        cx.state(&b);
        cx.nontrivial(!ls.is_empty());
        Ok(())
    }));
    let e = t.pick(3, 4);
    let (a1, a2) = (all.clone(), all.clone());
    v.push(space("all requests", seq::count_upto(n, e), move |i| show(&pick(&a1, n, e, i)), move |i, cx| {
        let ls = pick(&a2, n, e, i);
        let wants: Vec<Want> = ls.iter().map(|l| l.1.clone()).collect();
        let b = input(&ls, false, false);
        let (r, out, flushed) = serve(Way { pieces: vec![b.clone()], slow: false, most: usize::MAX, room: usize::MAX, fail_at_end: false });
        ensure!(r.is_ok(), "end", "the session ends with {r:?}");
        judge(&out, &wants)?;
        ensure_eq!(flushed, out.len(), "flush", "bytes flushed");
        cx.exec();
        cx.steps(ls.len() as u64);
        cx.state(&b);
        Ok(())
    }));
    // one cut at every place, for pairs of lines; the stream breaking off at every place
    let pairs: Vec<(usize, usize)> = (0..10).flat_map(|a| (0..10).map(move |b| (a, b))).collect();
    let (a1, p1) = (all.clone(), pairs.clone());
    v.push(space("cuts and failures", pairs.len() as u64, move |i| show(&[a1[p1[i as usize].0].clone(), a1[p1[i as usize].1].clone()]), move |i, cx| {
        let ls = vec![all[pairs[i as usize].0].clone(), all[pairs[i as usize].1].clone()];
        let wants: Vec<Want> = ls.iter().map(|l| l.1.clone()).collect();
        let b = input(&ls, false, false);
        let mut whole = Vec::new();
        for cut in 0..=b.len() {
            for slow in [false, true] {
                let (r, out, _) = serve(Way { pieces: vec![b[..cut].to_vec(), b[cut..].to_vec()], slow, most: usize::MAX, room: usize::MAX, fail_at_end: false });
                ensure!(r.is_ok(), "end", "cut at {cut}: the session ends with {r:?}");
                judge(&out, &wants)?;
                whole = out;
                cx.exec();
            }
            // the input fails there: complete lines are answered, the failure is reported
            let (r, out, flushed) = serve(Way { pieces: vec![b[..cut].to_vec()], slow: false, most: usize::MAX, room: usize::MAX, fail_at_end: true });
            ensure!(r.is_err(), "failure", "input that fails after {cut} bytes is taken for the end");
            let complete = b[..cut].iter().filter(|x| **x == b'\n').count();
            judge(&out, &wants[..complete.min(wants.len())])?;
            ensure_eq!(flushed, out.len(), "flush", "bytes flushed before the input failed");
            cx.exec();
        }
        for room in 0..whole.len() {
            let (r, out, _) = serve(Way { pieces: vec![b.clone()], slow: false, most: 5, room, fail_at_end: false });
            ensure!(r.is_err(), "failure", "output that fails after {room} bytes goes unnoticed");
            ensure_eq!(out, whole[..room].to_vec(), "failure", "output before the failure after {room} bytes");
            cx.exec();
        }
        Ok(())
    }));
    // long sessions, long lines, long answers
    let ns = seq::sizes(t.pick(40, 70), t.pick(1 << 10, 1 << 12));
    let big = seq::sizes(0, t.pick(1 << 17, 1 << 18));
    let (n1, b1) = (ns.clone(), big.clone());
    let split = 2 * ns.len() as u64;
    v.push(space("long", split + 2 * big.len() as u64, move |i| if i < split { format!("{} lines, {}", n1[i as usize / 2], ["at once", "in pieces of 7 bytes"][i as usize % 2]) } else { format!("{} of {}", ["a query", "a search limit"][i as usize % 2], b1[(i - split) as usize / 2]) }, move |i, cx| {
        use serde_json::json;
        let ls: Vec<(Vec<u8>, Want)> = if i < split {
            (0..ns[i as usize / 2])
                .map(|k| match k % 4 {
                    3 => (format!("rubbish {k}").into_bytes(), Want::Silent),
                    2 => (format!(r#"{{"jsonrpc":"2.0","id":{k},"method":"nothing"}}"#).into_bytes(), Want::Error(json!(k), -32601)),
                    _ => (format!(r#"{{"jsonrpc":"2.0","id":"r{k}","method":"tools/call","params":{{"name":"hover","arguments":{{"uri":"u{k}","offset":{k}}}}}}}"#).into_bytes(), Want::Result(json!(format!("r{k}")), "/content/0/text", json!(serde_json::to_string(&format!("hover u{k} {k}..{k}")).unwrap()))),
                })
                .collect()
        }
        else {
            let n = big[(i - split) as usize / 2] as usize;
            let (q, limit) = if i % 2 == 0 { ("é".repeat(n), 1) } else { ("q".to_string(), n) };
            let answer: Vec<String> = (0..limit).map(|k| format!("{q}{k}")).collect();
            vec![
                (format!(r#"{{"jsonrpc":"2.0","id":1,"method":"tools/call","params":{{"name":"semantic_search","arguments":{{"query":"{q}","limit":{limit}}}}}}}"#).into_bytes(), Want::Result(json!(1), "/content/0/text", json!(serde_json::to_string(&answer).unwrap()))),
                (br#"{"jsonrpc":"2.0","id":2,"method":"nothing"}"#.to_vec(), Want::Error(json!(2), -32601)),
            ]
        };
        let wants: Vec<Want> = ls.iter().map(|l| l.1.clone()).collect();
        let b = input(&ls, false, false);
        let small = i < split && i % 2 == 1;
        let pieces = if small { b.chunks(7).map(|x| x.to_vec()).collect() } else { b.chunks(8192).map(|x| x.to_vec()).collect() };
        let (r, out, flushed) = serve(Way { pieces, slow: small, most: if small { 5 } else { usize::MAX }, room: usize::MAX, fail_at_end: false });
        ensure!(r.is_ok(), "end", "the session ends with {r:?}");
        judge(&out, &wants)?;
        ensure_eq!(flushed, out.len(), "flush", "bytes flushed");
        cx.state(&i);
        cx.nontrivial(ls.len() > 2);
        cx.steps(ls.len() as u64 + b.len() as u64 / 4096);
        cx.exec();
        Ok(())
    }));
    v.push(each_character("every character in a request, as itself and escaped", t, |c, cx| {
        use serde_json::json;
        let s = format!("a{c}");
        let raw = |x: &str| x.chars().map(|c| if c < ' ' || c == '"' || c == '\\' { format!("\\u{:04x}", c as u32) } else { c.to_string() }).collect::<String>();
        let esc = |x: &str| x.encode_utf16().map(|u| format!("\\u{u:04x}")).collect::<String>();
        let mut ls = Vec::new();
        for w in [raw(&s), esc(&s)] {
            ls.push((format!(r#"{{"jsonrpc":"2.0","id":"{w}","method":"tools/call","params":{{"name":"hover","arguments":{{"uri":"{w}","offset":3}}}}}}"#).into_bytes(), Want::Result(json!(s), "/content/0/text", json!(serde_json::to_string(&format!("hover {s} 3..3")).unwrap()))));
            ls.push((format!(r#"{{"jsonrpc":"2.0","id":"{w}","method":"{w}"}}"#).into_bytes(), Want::Error(json!(s), -32601)));
            ls.push((format!(r#"{{"jsonrpc":"2.0","id":1,"method":"tools/call","params":{{"name":"semantic_search","arguments":{{"query":"{w}","limit":1}}}}}}"#).into_bytes(), Want::Result(json!(1), "/content/0/text", json!(serde_json::to_string(&[format!("{s}0")]).unwrap()))));
        }
        // outside of a request it asks for nothing
        if !c.is_ascii_digit() {
            ls.insert(1, (if c == '\n' { vec![] } else { c.to_string().into_bytes() }, Want::Silent));
        }
        let wants: Vec<Want> = ls.iter().map(|l| l.1.clone()).collect();
        let b = input(&ls, c as u32 % 2 == 0, c as u32 % 3 == 0);
        for k in [0, 1] {
            let pieces = if k == 0 { vec![b.clone()] } else { b.chunks(5).map(|x| x.to_vec()).collect() };
            let (r, out, flushed) = serve(Way { pieces, slow: false, most: if k == 0 { usize::MAX } else { 11 }, room: usize::MAX, fail_at_end: false });
            ensure!(r.is_ok(), "end", "the session ends with {r:?}");
            judge(&out, &wants)?;
            ensure_eq!(flushed, out.len(), "flush", "bytes flushed");
            cx.exec();
        }
        cx.state(&c);
        cx.nontrivial(!c.is_ascii());
        cx.steps(ls.len() as u64);
        Ok(())
    }));
    // what the language service is asked for
    const TOOLS: [(&str, bool); 6] = [("hover", true), ("symbols", false), ("definition", true), ("references", true), ("diagnostics", false), ("completion", true)];
    let mut at: Vec<u64> = (0..64).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).chain([u64::MAX - 1, u64::MAX]).collect();
    at.sort();
    at.dedup();
    const DOCS: [&str; 7] = ["", " ", "file:///a b/%20é#x?y", "File:///A/../b/", "a\n", "none", "中𝄞\"\\"];
    let a1 = at.clone();
    v.push(space("questions for the service", 6 * at.len() as u64, move |i| format!("{} at {}", TOOLS[i as usize % 6].0, a1[i as usize / 6]), move |i, cx| {
        use serde_json::json;
        let ((name, ranged), o) = (TOOLS[i as usize % 6], at[i as usize / 6]);
        let (mut ls, mut want) = (Vec::new(), Vec::new());
        for (k, uri) in DOCS.iter().enumerate() {
            let u = json!(uri).to_string();
            let args = match k % 3 {
                0 => format!(r#"{{"uri":{u},"offset":{o}}}"#),
                1 => format!(r#"{{"offset":{o},"x":null,"uri":{u}}}"#),
                _ => format!(r#"{{"uri":{u},"limit":1,"query":"q","offset":{o},"text":"offset"}}"#),
            };
            let params = if k % 2 == 0 { format!(r#"{{"name":"{name}","arguments":{args}}}"#) } else { format!(r#"{{"_meta":{{"name":"x"}},"arguments":{args},"name":"{name}"}}"#) };
            ls.push((format!(r#"{{"jsonrpc":"2.0","id":{k},"method":"tools/call","params":{params}}}"#).into_bytes(), Want::Result(json!(k), "/content/0/type", json!("text"))));
            let o = if ranged { o as usize } else { 0 };
            want.push((name, uri.to_string(), o, o))
        }
        let calls = Calls::default();
        let (r, out, _) = serve_with(Way { pieces: vec![input(&ls, false, false)], slow: false, most: usize::MAX, room: usize::MAX, fail_at_end: false }, calls.clone());
        ensure!(r.is_ok(), "end", "the session ends with {r:?}");
        judge(&out, &ls.iter().map(|l| l.1.clone()).collect::<Vec<_>>())?;
        ensure_eq!(*calls.lock().unwrap(), want, "question", "what the service was asked for");
        cx.state(&i);
        cx.nontrivial(o > 0);
        cx.steps(ls.len() as u64);
        cx.exec();
        Ok(())
    }));
    // names one edit away from the known ones are unknown
    let names: Vec<(bool, String)> = ["initialize", "tools/list", "tools/call"].iter().map(|m| (true, *m)).chain(TOOLS.iter().map(|t| (false, t.0))).chain([(false, "semantic_search")]).flat_map(|(m, s)| near(s).into_iter().map(move |x| (m, x))).collect();
    let n1 = names.clone();
    v.push(space("names close to the known ones", names.len() as u64, move |i| format!("{} {:?}", if n1[i as usize].0 { "method" } else { "tool" }, n1[i as usize].1), move |i, cx| {
        use serde_json::json;
        let (method, name) = &names[i as usize];
        let q = json!(name);
        let args = r#"{"uri":"u","offset":1,"query":"q"}"#;
        let (line, code) = if *method { (format!(r#"{{"jsonrpc":"2.0","id":0,"method":{q},"params":{{"name":"hover","arguments":{args}}}}}"#), -32601) } else { (format!(r#"{{"jsonrpc":"2.0","id":0,"method":"tools/call","params":{{"name":{q},"arguments":{args}}}}}"#), -32000) };
        let calls = Calls::default();
        let ls = [(line.into_bytes(), Want::Error(json!(0), code)), (br#"{"jsonrpc":"2.0","id":1,"method":"tools/list"}"#.to_vec(), Want::Result(json!(1), "/tools/0/name", json!("hover")))];
        let (r, out, _) = serve_with(Way { pieces: vec![input(&ls, false, false)], slow: false, most: usize::MAX, room: usize::MAX, fail_at_end: false }, calls.clone());
        ensure!(r.is_ok(), "end", "the session ends with {r:?}");
        judge(&out, &ls.clone().map(|l| l.1))?;
        ensure!(calls.lock().unwrap().is_empty(), "question", "the service is asked because of {name:?}");
        cx.state(&i);
        cx.nontrivial(true);
        cx.steps(2);
        cx.exec();
        Ok(())
    }));
    v
}
/// What one edit makes of a name: a character left out, doubled, in the other case, or another one put in.
fn near(s: &str) -> Vec<String> {
    let mut v = vec![format!("{s}{s}"), s.to_uppercase(), s.chars().rev().collect()];
    for k in 0..=s.len() {
        for c in [" ", "/", "\0", "\n", "_", ".", "$", "é", "\u{301}"] {
            v.push(format!("{}{c}{}", &s[..k], &s[k..]));
            if k < s.len() {
                v.push(format!("{}{c}{}", &s[..k], &s[k + 1..]))
            }
        }
        if let Some(c) = s[k..].chars().next() {
            v.push(format!("{}{}", &s[..k], &s[k + 1..]));
            v.push(format!("{}{c}{}", &s[..k], &s[k..]));
            v.push(format!("{}{}{}", &s[..k], c.to_uppercase(), &s[k + 1..]));
            v.push(s[..k].to_string());
        }
    }
    v.retain(|x| x != s);
    v.sort();
    v.dedup();
    v
}
