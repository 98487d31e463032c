#![feature(new_range_api)]
use core::range::Range;
use oak_core::{
    language::{ElementType, Language, TokenType, UniversalElementRole, UniversalTokenRole},
    memory::arena::SyntaxArena,
    tree::{GreenLeaf, GreenNode, GreenTree, RedNode},
};
use oak_json::{JsonLanguage, JsonLanguageService};
use oak_lsp::{service::LanguageService, workspace::WorkspaceManager};
use oak_navigation::SimpleReferenceFinder;
use oak_symbols::{SymbolProvider, UniversalSymbolProvider};
use oak_vfs::MemoryVfs;
use oak_resolver::GlobalSymbolTable;
use oak_symbols::SymbolInformation;
const T: bool = cfg!(feature = "thorough");

// ---- P18 ----
const URIS: [&str; 3] = ["a", "b", ""];
fn symbol(uri: &str, i: usize, at: usize) -> SymbolInformation {
    let (container, name) = [(None, "f"), (Some("m"), "f"), (None, "m::f"), (None, "g")][i];
    SymbolInformation { name: name.into(), role: UniversalElementRole::Definition, uri: uri.into(), range: Range { start: at, end: at + 1 }, container_name: container.map(String::from) }
}
fn key(s: &SymbolInformation) -> (String, String, usize, Option<String>) {
    (s.uri.to_string(), s.name.clone(), s.range.start, s.container_name.clone())
}
fn full(s: &SymbolInformation) -> String {
    match &s.container_name {
        Some(c) => format!("{}::{}", c, s.name),
        None => s.name.clone(),
    }
}
fn sorted(v: Vec<SymbolInformation>) -> Vec<(String, String, usize, Option<String>)> {
    let mut v: Vec<_> = v.iter().map(key).collect();
    v.sort();
    v
}
/// P18: every history of file updates.
#[unsafe(no_mangle)]
pub extern "C" fn h_symbols() {
    let t = GlobalSymbolTable::new();
    let mut files: [Vec<SymbolInformation>; 3] = Default::default();
    for step in 0..3 {
        let f = vx::choose(2);
        let n = vx::choose(if step == 2 && !T { 2 } else { 3 });
        // an update can leave every range where it was, or move them
        let at = if step == 1 { vx::choose(2) } else { 0 };
        let syms: Vec<_> = (0..n).map(|i| symbol(URIS[f], vx::choose(4), at * 10 + i)).collect();
        t.update_file_symbols(URIS[f].to_string(), syms.clone());
        files[f] = syms;
        let all: Vec<_> = files.iter().flatten().cloned().collect();
        for (i, u) in URIS.iter().enumerate() {
            assert!(t.query_file(u).iter().map(key).collect::<Vec<_>>() == files[i].iter().map(key).collect::<Vec<_>>(), "symbols of a file");
        }
        for fqn in ["f", "m::f", "g", "m", ""] {
            let want: Vec<_> = all.iter().filter(|s| full(s) == fqn).collect();
            match t.lookup(fqn) {
                None => assert!(want.is_empty(), "declared symbol is not found"),
                Some(s) => assert!(want.iter().any(|w| key(w) == key(&s)), "found symbol is not declared"),
            }
            let want: Vec<_> = all.iter().filter(|s| full(s).contains(fqn)).cloned().collect();
            assert!(sorted(t.query(fqn)) == sorted(want), "query");
        }
    }
    vx::cover(1);
}

// ---- P19, P25: a language whose nodes take every role that matters ----
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Tk {
    Name,
    Op,
    Eof,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum El {
    Def,
    Stmt,
    Ref,
    Doc,
    Other,
}
impl From<Tk> for El {
    fn from(_: Tk) -> El {
        El::Other
    }
}
impl TokenType for Tk {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = Tk::Eof;
    fn role(&self) -> UniversalTokenRole {
        match self {
            Tk::Name => UniversalTokenRole::Name,
            Tk::Op => UniversalTokenRole::Operator,
            Tk::Eof => UniversalTokenRole::Eof,
        }
    }
}
impl ElementType for El {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        match self {
            El::Def => UniversalElementRole::Definition,
            El::Stmt => UniversalElementRole::Statement,
            El::Ref => UniversalElementRole::Reference,
            El::Doc => UniversalElementRole::Documentation,
            El::Other => UniversalElementRole::Expression,
        }
    }
}
#[derive(Debug, Clone, Copy, Default)]
struct Mini;
impl Language for Mini {
    const NAME: &'static str = "mini";
    type TokenType = Tk;
    type ElementType = El;
    type TypedRoot = ();
}
/// The reference tree: spans and kinds.
#[derive(Clone)]
enum M {
    L(Tk, usize, usize),
    N(El, usize, usize, Vec<M>),
}
/// Every tree built by `steps` steps, together with its text.
fn tree<'a>(arena: &'a SyntaxArena, steps: usize, kinds: &[El], words: &[(Tk, &str)], src: &mut String) -> (&'a GreenNode<'a, Mini>, M) {
    let first = kinds[vx::choose(kinds.len() as u64)];
    let mut st: Vec<(El, usize, Vec<GreenTree<'a, Mini>>, Vec<M>)> = vec![(first, 0, vec![], vec![])];
    fn close<'a>(arena: &'a SyntaxArena, st: &mut Vec<(El, usize, Vec<GreenTree<'a, Mini>>, Vec<M>)>, end: usize) -> (&'a GreenNode<'a, Mini>, M) {
        let (k, at, g, m) = st.pop().unwrap();
        let n: &'a GreenNode<'a, Mini> = arena.alloc(GreenNode::new(k, arena.alloc_slice_copy(&g)));
        (n, M::N(k, at, end, m))
    }
    for _ in 0..steps {
        match vx::choose(3) {
            0 => {
                let (k, w) = words[vx::choose(words.len() as u64)];
                let at = src.len();
                src.push_str(w);
                let top = st.last_mut().unwrap();
                top.2.push(GreenTree::Leaf(GreenLeaf::new(k, w.len() as u32)));
                top.3.push(M::L(k, at, src.len()));
            }
            1 => st.push((kinds[vx::choose(kinds.len() as u64)], src.len(), vec![], vec![])),
            _ => {
                vx::assume(st.len() > 1);
                let (n, m) = close(arena, &mut st, src.len());
                let top = st.last_mut().unwrap();
                top.2.push(GreenTree::Node(n));
                top.3.push(m);
            }
        }
    }
    while st.len() > 1 {
        let (n, m) = close(arena, &mut st, src.len());
        let top = st.last_mut().unwrap();
        top.2.push(GreenTree::Node(n));
        top.3.push(m);
    }
    close(arena, &mut st, src.len())
}
fn preorder<'m>(m: &'m M, above: Option<&str>, src: &str, out: &mut Vec<(&'m M, Option<String>)>) {
    out.push((m, above.map(String::from)));
    if let M::N(k, _, _, kids) = m {
        let name = def_name(*k, kids, src);
        for c in kids {
            preorder(c, name.as_deref().or(above), src, out);
        }
    }
}
fn def_name(k: El, kids: &[M], src: &str) -> Option<String> {
    if k != El::Def {
        return None;
    }
    let n = kids.iter().find_map(|c| if let M::L(Tk::Name, a, b) = c { Some(src[*a..*b].to_string()) } else { None });
    Some(n.unwrap_or("<Def>".to_string()))
}
/// P19: symbols and references of every tree.
#[unsafe(no_mangle)]
pub extern "C" fn h_outline() {
    let arena = SyntaxArena::new(1);
    let mut src = String::new();
    let (g, m) = tree(&arena, if T { 7 } else { 6 }, &[El::Def, El::Stmt], &[(Tk::Name, "x"), (Tk::Name, "é"), (Tk::Op, "x")], &mut src);
    let mut all = vec![];
    preorder(&m, None, &src, &mut all);
    let root = RedNode::new(g, 0);
    let got = SymbolProvider::<Mini>::document_symbols(&UniversalSymbolProvider, "u", &root, src.as_str());
    let mut at = 0;
    for (n, above) in &all {
        if let M::N(El::Def, a, b, kids) = n {
            let s = got.get(at).expect("definition without symbol");
            assert!(s.range == Range { start: *a, end: *b } && &*s.uri == "u", "symbol range");
            assert!(s.name == def_name(El::Def, kids, &src).unwrap(), "symbol name");
            assert!(s.container_name == *above && s.role == UniversalElementRole::Definition, "symbol container");
            at += 1;
            vx::cover(2);
        }
    }
    assert!(at == got.len(), "more symbols than definitions");
    for name in ["x", "é", ""] {
        let got = SimpleReferenceFinder::<Mini>::find(&root, name, &src, "u");
        let want: Vec<_> = all.iter().filter_map(|(n, _)| if let M::L(Tk::Name, a, b) = n { (&src[*a..*b] == name).then_some((*a, *b)) } else { None }).collect();
        assert!(got.iter().map(|l| (l.range.start, l.range.end)).collect::<Vec<_>>() == want, "references");
    }
    vx::cover(1);
}
/// P25: the chunks of every tree.
#[unsafe(no_mangle)]
pub extern "C" fn h_chunks() {
    let arena = SyntaxArena::new(1);
    let mut src = String::new();
    let (g, m) = tree(&arena, if T { 7 } else { 6 }, &[El::Def, El::Stmt, El::Doc, El::Other], &[(Tk::Name, "abcdefghijklmnopqr"), (Tk::Op, " é"), (Tk::Op, "\n")], &mut src);
    let mut all = vec![];
    preorder(&m, None, &src, &mut all);
    let got = oak_semantic_search::verif_chunks(RedNode::new(g, 0), &src);
    let mut at = 0;
    for (n, _) in &all {
        if let M::N(k @ (El::Def | El::Stmt | El::Doc), a, b, _) = n {
            if b - a > 20 {
                let c = got.get(at).expect("element without chunk");
                assert!((c.range_start, c.range_end) == (*a, *b), "chunk range");
                assert!(c.text == src[*a..*b], "chunk text");
                assert!(c.role == format!("{:?}", k.role()), "chunk role");
                at += 1;
                vx::cover(2);
            }
        }
    }
    assert!(at == got.len(), "more chunks than elements");
    vx::cover(1);
}
struct Service {
    fs: MemoryVfs,
    ws: WorkspaceManager,
    root: Option<(&'static GreenNode<'static, Mini>, String)>,
}
unsafe impl Send for Service {}
unsafe impl Sync for Service {}
impl LanguageService for Service {
    type Lang = Mini;
    type Vfs = MemoryVfs;
    fn vfs(&self) -> &MemoryVfs {
        &self.fs
    }
    fn workspace(&self) -> &WorkspaceManager {
        &self.ws
    }
    fn get_root(&self, uri: &str) -> impl Future<Output = Option<RedNode<'_, Mini>>> + Send + '_ {
        let r = self.root.as_ref().filter(|(_, u)| u == uri).map(|(g, _)| RedNode::new(*g, 0));
        async move { r }
    }
}
/// P19: the default answers of a language service.
#[unsafe(no_mangle)]
pub extern "C" fn h_service() {
    let arena = SyntaxArena::new(1);
    let mut src = String::new();
    let (g, m) = tree(&arena, 4, &[El::Ref, El::Stmt], &[(Tk::Name, "x"), (Tk::Name, "é")], &mut src);
    let g: &'static GreenNode<'static, Mini> = unsafe { std::mem::transmute(g) };
    let s = Service { fs: MemoryVfs::new(), ws: WorkspaceManager::new(), root: Some((g, "u".into())) };
    if vx::flag() {
        s.fs.write_file("u", src.as_str());
    }
    let sym = |name: &str, at: usize| SymbolInformation { name: name.into(), role: UniversalElementRole::Definition, uri: "v".into(), range: Range { start: at, end: at + 1 }, container_name: None };
    s.ws.symbols.update_file_symbols("v".into(), vec![sym("x", 3), sym("é", 5)]);
    let at = vx::choose(src.len() as u64 + 2);
    let uri = vx::pick(&["u", "w"]);
    let got = vx::block_on(s.definition(uri, Range { start: at, end: at }));
    let M::N(k, _, _, kids) = &m else { unreachable!() };
    if uri == "w" || !s.fs_has("u") {
        assert!(got.is_empty());
    }
    else {
        let hit = kids.iter().find(|c| match c {
            M::L(_, a, b) | M::N(_, a, b, _) => *a <= at && at < *b,
        });
        let reference = |k: El, a: usize, b: usize| match (k, &src[a..b]) {
            (El::Ref, "x") => vec![("v", 3, 4)],
            (El::Ref, "é") => vec![("v", 5, 6)],
            _ => vec![],
        };
        let want = match hit {
            Some(M::L(_, a, b)) => vec![("u", *a, *b)],
            Some(M::N(k, a, b, _)) => reference(*k, *a, *b),
            None => reference(*k, 0, src.len()),
        };
        assert!(got.iter().map(|l| (&*l.uri, l.range.start, l.range.end)).collect::<Vec<_>>() == want, "definition");
        if !want.is_empty() {
            vx::cover(2);
        }
    }
    let all = vx::block_on(s.workspace_symbols("é".to_string()));
    assert!(all.len() == 1 && all[0].name == "é" && &*all[0].location.uri == "v" && all[0].location.range.start == 5);
    assert!(vx::block_on(s.document_symbols("v")).is_empty(), "no such file");
    assert!(vx::block_on(s.list_all_files("u")) == if s.fs_has("u") { vec!["u".to_string()] } else { vec![] });
    let roots = vx::block_on(s.with_roots(vec!["w".into(), "u".into()], |r| r.span().end));
    assert!(roots == [src.len()]);
    vx::cover(1);
}
impl Service {
    fn fs_has(&self, u: &str) -> bool {
        oak_vfs::Vfs::exists(&self.fs, u)
    }
}

// ---- P19: the JSON language service ----
type Json = JsonLanguageService<MemoryVfs>;
/// P19, finding: the references of a JSON key find nothing.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_references() {
    let s = Json::new(MemoryVfs::new());
    s.vfs().write_file("u", vx::pick(&["{\"a\":1}", "{\"a\":{\"a\":[]}}"]));
    assert!(!vx::block_on(s.references("u", Range { start: 2, end: 2 })).is_empty(), "references");
}
/// P19: any request on any text stays within the document, in any order of requests and changes.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_requests() {
    let s = Json::new(MemoryVfs::new());
    let mut src = vx::over_upto("{}\":,[1".as_bytes(), if T { 4 } else { 3 });
    if T && vx::flag() {
        src.insert(0, 'é');
    }
    s.vfs().write_file("u", src.as_str());
    for _ in 0..2 {
        let at = vx::choose(src.len() as u64 + 2);
        let here = Range { start: at, end: at };
        let valid = |r: Range<usize>| assert!(r.start <= r.end && r.end <= src.len() && src.is_char_boundary(r.start) && src.is_char_boundary(r.end), "range outside the document");
        match vx::choose(5) {
            0 => {
                if let Some(r) = vx::block_on(s.hover("u", here)).and_then(|h| h.range) {
                    valid(r);
                }
            }
            1 => vx::block_on(s.definition("u", here)).iter().for_each(|l| valid(l.range)),
            2 => vx::block_on(s.references("u", here)).iter().for_each(|l| valid(l.range)),
            3 => {
                if let Some(e) = vx::block_on(s.rename("u", here, "n".into())) {
                    e.changes["u"].iter().for_each(|e| valid(e.range));
                }
            }
            _ => {
                src = "{\"\":1}".into();
                s.vfs().write_file("u", src.as_str());
            }
        }
    }
    vx::cover(1);
}

// ---- P27: the tool server ----
use serde_json::Value;
struct Found;
impl oak_semantic_search::SemanticSearch for Found {
    async fn search(&self, query: &str, limit: usize) -> Result<Vec<String>, oak_core::OakError> {
        if query == "bad" { Err(oak_core::OakError::semantic_error("no index")) } else { Ok(vec!["é".to_string(); limit.min(2)]) }
    }
}
/// What the server writes for the given input.
fn serve(input: &[u8], search: bool) -> Vec<Value> {
    let s = Json::new(MemoryVfs::new());
    s.vfs().write_file("u", "{\"a\":1}");
    let mut out = Vec::new();
    let r = if search { vx::block_on(oak_mcp::McpServer::new(s).with_searcher(Found).run(input, &mut out)) } else { vx::block_on(oak_mcp::McpServer::new(s).run(input, &mut out)) };
    assert!(r.is_ok(), "the server stopped");
    let out = String::from_utf8(out).expect("reply is text");
    assert!(out.is_empty() || out.ends_with('\n'));
    out.lines().map(|l| serde_json::from_str(l).expect("reply is JSON")).collect()
}
fn reply_ok(r: &Value, id: &Value) -> bool {
    assert!(r["jsonrpc"] == "2.0" && r.get("id") == Some(id), "reply with another id");
    assert!(r.get("result").is_some() != r.get("error").is_some(), "neither or both of result and error");
    if let Some(e) = r.get("error") {
        assert!(e["code"].is_i64() && e["message"].is_string());
    }
    r.get("result").is_some()
}
const IDS: [&str; 5] = ["", "1", "\"é\\n\"", "null", "[{}]"];
const TOOLS: [&str; 9] = ["hover", "symbols", "definition", "references", "diagnostics", "completion", "semantic_search", "none", ""];
/// P27: every sequence of requests of the listed shapes.
#[unsafe(no_mangle)]
pub extern "C" fn h_mcp() {
    let mut input = String::new();
    let mut want: Vec<(Value, Option<bool>)> = vec![];
    let search = vx::flag();
    let n: usize = if T { 3 } else { 2 };
    let full = vx::choose(if T { n as u64 } else { 1 });
    for line in 0..n {
        let mut text;
        // the answer, if one is due; None: either
        let mut ok = Some(false);
        let mut id = Value::Null;
        match if line == full { 2 } else { vx::choose(2) } {
            0 => {
                // not a request
                let t = vx::pick(&["", " \t", "{", "{}", "[]", "1", "\"a\"", "{\"id\":7}", "{\"jsonrpc\":\"2.0\",\"method\":\"tools/list\"}", "{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":1}", "{\"jsonrpc\":\"2.0\",\"method\":\"tools/list\",\"method\":\"x\",\"id\":7}", "\u{0}"]);
                text = t.to_string();
                if t.trim().is_empty() || t.contains("list\"}") {
                    ok = None;
                    id = Value::String("-".into());
                }
                else if let Ok(v) = serde_json::from_str::<Value>(t) {
                    id = v.get("id").cloned().unwrap_or(Value::Null);
                }
            }
            1 => {
                let i = vx::pick(&IDS[1..]);
                text = format!("{{\"jsonrpc\":\"2.0\",\"id\":{i},\"method\":\"tools/list\"}}");
                id = serde_json::from_str(i).unwrap();
                ok = Some(true);
            }
            _ => {
                let i = vx::pick(&IDS);
                text = "{".to_string();
                if i != "" {
                    text += &format!("\"id\":{i},");
                    id = serde_json::from_str(i).unwrap();
                }
                let m = vx::pick(&["initialize", "tools/list", "tools/call", "é", ""]);
                ok = Some(m == "initialize" || m == "tools/list");
                text += &format!(" \"method\" : \"{m}\"");
                if m == "tools/call" {
                    match vx::choose(4) {
                        0 => (),
                        1 => text += ",\"params\":null",
                        2 => text += ",\"params\":[\"name\"]",
                        _ => {
                            let t = vx::pick(&TOOLS);
                            let shapes = [("", false, false, false), ("null", false, false, false), ("{}", false, false, false), ("{\"uri\":1,\"offset\":0}", false, false, false), ("{\"uri\":\"u\"}", false, true, false), ("{\"uri\":\"u\",\"offset\":-1}", false, true, false), ("{\"uri\":\"u\",\"offset\":2}", true, true, false), ("{\"uri\":\"é\",\"offset\":0}", true, true, false), ("{\"uri\":\"u\",\"offset\":18446744073709551615}", true, true, false), ("{\"query\":\"q\",\"limit\":1}", false, false, true), ("{\"query\":\"q\",\"limit\":\"\"}", false, false, true), ("{\"query\":\"bad\"}", false, false, false)];
                            let (a, place, file, words) = shapes[vx::choose(shapes.len() as u64)];
                            text += &format!(",\"params\":{{\"name\":\"{t}\"");
                            if a != "" {
                                text += &format!(",\"arguments\":{a}");
                            }
                            text += "}";
                            ok = Some(match t {
                                "hover" | "definition" | "references" | "completion" => place,
                                "symbols" | "diagnostics" => file,
                                "semantic_search" => search && words,
                                _ => false,
                            });
                        }
                    }
                }
                text += ",\"jsonrpc\":\"2.0\"}";
                if i == "" {
                    ok = None;
                    id = Value::String("-".into());
                }
            }
        }
        if line == full && vx::flag() {
            text.push('\r');
        }
        input += &text;
        if line + 1 < n || vx::flag() {
            input += "\n";
        }
        want.push((id, ok));
    }
    let got = serve(input.as_bytes(), search);
    let want: Vec<_> = want.iter().filter(|(_, ok)| ok.is_some()).collect();
    assert!(got.len() == want.len(), "one reply per request");
    for (r, (id, ok)) in got.iter().zip(want) {
        let k = reply_ok(r, id);
        assert!(Some(k) == *ok, "result or error");
        vx::cover(if k { 1 } else { 2 });
    }
}
/// P27: a request with any bytes in any place; the server answers and goes on.
#[unsafe(no_mangle)]
pub extern "C" fn h_mcp_any() {
    let doc = vx::pick(&["{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"m\"}", "{\"jsonrpc\":\"2.0\",\"id\":\"a\",\"method\":\"tools/call\",\"params\":{\"name\":\"hover\",\"arguments\":{\"uri\":\"u\",\"offset\":1}}}"]);
    let mut input = doc.as_bytes().to_vec();
    let at = vx::choose(input.len() as u64);
    let set = b"\"\\{}[]:,1-e \x00\x80\xc3\xff";
    if vx::flag() {
        input.remove(at);
    }
    else {
        let b = set[vx::choose(set.len() as u64)];
        if vx::flag() {
            input[at] = b;
        }
        else {
            input.insert(at, b);
        }
    }
    let line = String::from_utf8_lossy(&input).to_string();
    input.extend_from_slice(b"\n{\"jsonrpc\":\"2.0\",\"id\":\"last\",\"method\":\"initialize\"}");
    let got = serve(&input, false);
    assert!(reply_ok(got.last().expect("no reply"), &"last".into()), "the next request is not answered");
    // a line without an id member and with the others is a notification
    let v = serde_json::from_str::<Value>(&line).ok();
    let note = v.as_ref().is_some_and(|v| v.get("id").is_none() && v["jsonrpc"].is_string() && v["method"].is_string());
    assert!(got.len() == if note { 1 } else { 2 }, "one reply per line");
    if !note {
        let id = v.as_ref().and_then(|v| v.get("id")).cloned().unwrap_or(Value::Null);
        reply_ok(&got[0], &id);
        vx::cover(if v.is_some() { 1 } else { 2 });
    }
}

// ---- P29: workspace folders and module resolution ----
use oak_resolver::ModuleResolver;
static EXISTING: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
/// Stands in for the system call: a path exists when the harness says so.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(_fd: i32, path: *const u8, _flags: i32, _mask: u32, buf: *mut u8) -> i32 {
    if path.is_null() {
        unsafe {
            *__errno_location() = 14;
        }
        return -1;
    }
    let mut n = 0;
    while unsafe { *path.add(n) } != 0 {
        n += 1;
    }
    let path = unsafe { std::slice::from_raw_parts(path, n) };
    if EXISTING.lock().unwrap().iter().any(|p| p.as_bytes() == path) {
        // struct statx: stx_mask and stx_mode
        unsafe {
            std::ptr::write_bytes(buf, 0, 256);
            *(buf as *mut u32) = 0x7ff;
            *(buf.add(28) as *mut u16) = 0o100644;
        }
        return 0;
    }
    unsafe {
        *__errno_location() = 2;
    }
    -1
}
unsafe extern "C" {
    fn __errno_location() -> *mut i32;
}
const FOLDERS: [(&str, &str); 6] = [("file:///a", "/a"), ("file:///a/b", "/a/b"), ("file:///ab", "/ab"), ("file:///%61/", "/a/"), ("http://a", ""), ("a", "")];
fn holds(folder: &str, path: &str) -> bool {
    let f = folder.trim_end_matches('/');
    path.strip_prefix(f).is_some_and(|r| r.is_empty() || r.starts_with('/'))
}
/// P29: every history of folder changes.
#[unsafe(no_mangle)]
pub extern "C" fn h_folders() {
    let w = WorkspaceManager::new();
    let mut now: Vec<(&str, &str)> = vec![];
    let n = vx::choose(if T { 3 } else { 2 });
    let init: Vec<_> = (0..n).map(|_| FOLDERS[vx::choose(6)]).collect();
    let root = if vx::flag() { Some(FOLDERS[vx::choose(6)]) } else { None };
    let mut roots: Vec<&str> = vec![];
    w.initialize(&oak_lsp::InitializeParams { root_uri: root.map(|r| r.0.to_string()), workspace_folders: init.iter().map(|f| oak_lsp::WorkspaceFolder { uri: f.0.to_string(), name: "n".into() }).collect() });
    for f in root.iter().chain(&init) {
        if f.1 != "" {
            roots.push(f.1);
            if !now.contains(f) {
                now.push(*f);
            }
        }
    }
    for _ in 0..if T { 3 } else { 2 } {
        let f = FOLDERS[vx::choose(6)];
        if vx::flag() {
            w.add_folder(f.0.to_string(), "n".into());
            if f.1 != "" && !now.contains(&f) {
                now.push(f);
                roots.push(f.1);
            }
        }
        else {
            w.remove_folder(f.0);
            now.retain(|x| *x != f);
            // "/a" and "/a/" are one directory
            let same = |x: &str| x.trim_end_matches('/') == f.1.trim_end_matches('/');
            if !now.iter().any(|x| same(x.1)) {
                roots.retain(|x| !same(x));
            }
        }
    }
    let mut got = w.list_folders();
    got.sort();
    let mut want: Vec<_> = now.iter().map(|(u, p)| (u.to_string(), std::path::PathBuf::from(p))).collect();
    want.sort();
    assert!(got == want, "folders");
    for (uri, path) in [("file:///a", "/a"), ("file:///a/b/c", "/a/b/c"), ("file:///ab/", "/ab/"), ("file:///abc", "/abc"), ("file:///", "/")] {
        let best = now.iter().filter(|f| holds(f.1, path)).map(|f| f.1.trim_end_matches('/').len()).max();
        match w.find_root(uri) {
            None => assert!(best.is_none(), "no folder found"),
            Some(u) => {
                let f = now.iter().find(|f| f.0 == u).expect("folder of the workspace");
                assert!(holds(f.1, path) && Some(f.1.trim_end_matches('/').len()) == best, "deepest folder");
                vx::cover(2);
            }
        }
        assert!(w.is_within_workspace(uri) == best.is_some());
    }
    assert!(w.find_root("http://a/x").is_none() && w.find_root("a").is_none());
    // modules
    let files = ["/x/m", "/a/m", "/a/b/m", "/ab/m"];
    let set = [0, 3, 2, 4, 8, 14][vx::choose(6)];
    let there: Vec<_> = files.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|f| f.1).collect();
    *EXISTING.lock().unwrap() = there.iter().map(|f| f.to_string()).collect();
    // a module can also name the file it is asked from
    let found = w.resolver.resolve(if vx::flag() { "file:///x/y" } else { "file:///x/m" }, "m");
    let at = |d: &str| format!("{}/m", d.trim_end_matches('/'));
    let exists = |p: &String| there.iter().any(|f| **f == p.as_str());
    if exists(&"/x/m".to_string()) {
        assert!(found.as_deref() == Some("file:///x/m"), "module beside the file");
    }
    else {
        let any: Vec<_> = roots.iter().map(|r| at(r)).filter(exists).collect();
        match found {
            None => assert!(any.is_empty(), "module not found"),
            Some(u) => assert!(any.iter().any(|p| u == format!("file://{p}")), "module outside the folders"),
        }
    }
    vx::cover(1);
}
/// P29: a path and its URI name each other.
#[unsafe(no_mangle)]
pub extern "C" fn h_path_uri() {
    let w = WorkspaceManager::new();
    let t = vx::text(if T { 4 } else { 3 }, 3);
    let bytes = t.as_bytes();
    // no empty and no relative components, no NUL
    vx::assume(bytes.iter().all(|b| *b != 0 && *b != b'/'));
    vx::assume(t != "" && t != "." && t != "..");
    let p = std::path::PathBuf::from(format!("/d/{t}"));
    let u = w.path_to_uri(p.clone()).expect("an absolute path has a URI");
    assert!(u.is_ascii() && u.starts_with("file:///d/"), "URI");
    assert!(w.get_path(&u) == Some(p), "path of the URI");
    vx::cover(1);
}
vx::main!(h_symbols, h_outline, h_chunks, h_service, h_json_references, h_json_requests, h_mcp, h_mcp_any, h_folders, h_path_uri);
