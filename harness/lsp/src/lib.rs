//! The language server, as a client sees it: the real `lsp` crate behind `start_lsp`.
#![allow(dead_code, unused_imports)]
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use symrt::*;
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, Served};
use url::Url;

// ---------------------------------------------------------------- texts and positions
#[derive(Clone, Copy, PartialEq, Debug)]
enum Enc {
    Utf8,
    Utf16,
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for (x, y) in a.iter().zip(b) {
        r &= x == y;
    }
    r
}
/// UTF-8 of up to `max` characters: any letter or blank, some of two, three or four bytes, and line ends
fn text(max: usize, crlf: bool) -> String {
    let n = len(0, max);
    let mut v = vec![];
    for _ in 0..n {
        match pick(3) {
            0 => {
                let b = byte();
                assume((b < 0x80) & (b != b'\n') & (b != b'\r'));
                v.push(b);
            }
            1 => {
                if crlf {
                    v.push(b'\r');
                }
                v.push(b'\n');
            }
            _ => v.extend_from_slice("𐐀".as_bytes()),
        }
    }
    String::from_utf8(v).unwrap()
}
fn stops(t: &str) -> Vec<usize> {
    let b = t.as_bytes();
    (0..=b.len()).filter(|&i| t.is_char_boundary(i) && !(i > 0 && i < b.len() && b[i - 1] == b'\r' && b[i] == b'\n')).collect()
}
fn position(t: &str, at: usize, e: Enc) -> Position {
    let mut p = Position::new(0, 0);
    let b = t.as_bytes();
    let mut i = 0;
    while i < at {
        if b[i] == b'\n' {
            p.line += 1;
            p.character = 0;
        } else if e == Enc::Utf8 {
            p.character += 1;
        } else if b[i] & 0xc0 != 0x80 {
            p.character += if b[i] >= 0xf0 { 2 } else { 1 };
        }
        i += 1;
    }
    p
}
fn offset(t: &str, p: Position, e: Enc) -> Option<usize> {
    stops(t).into_iter().find(|&i| position(t, i, e) == p)
}
/// what a client does with edits
fn apply(t: &str, edits: &[TextEdit], e: Enc) -> Option<String> {
    let mut v: Vec<(usize, usize, usize)> = vec![];
    for (i, x) in edits.iter().enumerate() {
        v.push((offset(t, x.range.start, e)?, offset(t, x.range.end, e)?, i));
    }
    v.sort_by_key(|x| (x.0, x.1, x.2));
    let mut out = String::new();
    let mut at = 0;
    for (s, f, i) in v {
        if s < at || f < s {
            return None;
        }
        out.push_str(&t[at..s]);
        out.push_str(&edits[i].new_text);
        at = f;
    }
    out.push_str(&t[at..]);
    Some(out)
}
fn with_endings(t: &[u8], crlf: bool) -> Vec<u8> {
    let mut s = vec![];
    for c in t {
        if crlf && *c == b'\n' {
            s.push(b'\r');
        }
        s.push(*c);
    }
    s
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Indent {
    tab: bool,
    width: usize,
}
/// What formatting gives, with `\n` as line end.
fn reference(text: &[u8], i: Indent) -> Vec<u8> {
    let mut out = vec![];
    for b in text {
        match *b {
            b' ' | b'\r' => {}
            b'>' if i.tab => out.push(b'\t'),
            b'>' => out.extend(std::iter::repeat_n(b'.', i.width)),
            b => out.push(b),
        }
    }
    out
}
/// any lower case letter
fn letter() -> String {
    let b = byte();
    assume((b >= b'a') & (b <= b'z'));
    plain(vec![b])
}
fn any_of(t: &[u8], what: &[u8]) -> bool {
    let mut r = false;
    for b in t {
        for w in what {
            r |= b == w;
        }
    }
    r
}
// ---------------------------------------------------------------- sessions
type Told = Rc<RefCell<Vec<(String, serde_json::Value)>>>;
fn client(answer: impl Fn(&ConfigurationItem) -> serde_json::Value + 'static) -> Client {
    Client { answer: Rc::new(answer), told: Default::default(), asked: Default::default(), short: Default::default() }
}
fn nothing(_: &ConfigurationItem) -> serde_json::Value {
    serde_json::Value::Null
}
/// Runs the server with a client which does `f`.
fn session<F, R>(client: Client, f: F) -> bool
where
    F: FnOnce(Rc<dyn Served>) -> R + 'static,
    R: Future<Output = ()> + 'static,
{
    tower_lsp::connect(client, Box::new(move |s| Box::pin(f(s))));
    tokio::run(lsp::start_lsp(tokio::io::Nothing, tokio::io::Nothing)).is_some()
}
fn file_url(p: &Path) -> Url {
    Url::from_file_path(p).unwrap()
}
fn folder(p: &Path) -> WorkspaceFolder {
    WorkspaceFolder { uri: file_url(p), name: "f".to_string() }
}
fn capabilities(offer: usize, configuration: bool) -> ClientCapabilities {
    let kinds = [
        None,
        Some(vec![PositionEncodingKind::UTF16]),
        Some(vec![PositionEncodingKind::UTF8]),
        Some(vec![PositionEncodingKind::UTF16, PositionEncodingKind::UTF8]),
        Some(vec![PositionEncodingKind::UTF32, PositionEncodingKind::UTF16]),
    ];
    let mut c = ClientCapabilities::default();
    if let Some(k) = &kinds[offer] {
        c.general = Some(GeneralClientCapabilities { position_encodings: Some(k.clone()), ..Default::default() });
    }
    let mut w = WorkspaceClientCapabilities::default();
    w.configuration = Some(configuration);
    c.workspace = Some(w);
    c
}
async fn start(s: &dyn Served, offer: usize, configuration: bool, folders: Vec<WorkspaceFolder>) -> Enc {
    let p = InitializeParams { capabilities: capabilities(offer, configuration), workspace_folders: Some(folders), ..Default::default() };
    let r = s.initialize(p).await.unwrap();
    s.initialized(InitializedParams {}).await;
    let c = r.capabilities;
    check(c.text_document_sync == Some(TextDocumentSyncCapability::Kind(TextDocumentSyncKind::INCREMENTAL)), 80);
    check(c.document_formatting_provider == Some(OneOf::Left(true)), 81);
    check(c.document_range_formatting_provider == Some(OneOf::Left(true)), 82);
    // one which the client has offered, or the one of the protocol
    let offered = match offer {
        0 | 1 | 4 => [false, true],
        2 => [true, false],
        _ => [true, true],
    };
    let k = c.position_encoding.unwrap_or(PositionEncodingKind::UTF16);
    let e = if k == PositionEncodingKind::UTF8 { Enc::Utf8 } else { Enc::Utf16 };
    check(e == Enc::Utf8 || k == PositionEncodingKind::UTF16, 83);
    check(if e == Enc::Utf8 { offered[0] } else { true }, 84);
    e
}
async fn open(s: &dyn Served, uri: &Url, text: &str) {
    let d = TextDocumentItem { uri: uri.clone(), language_id: "r".to_string(), version: 1, text: text.to_string() };
    s.did_open(DidOpenTextDocumentParams { text_document: d }).await
}
fn options(tab_size: u32, insert_spaces: bool) -> FormattingOptions {
    FormattingOptions { tab_size, insert_spaces, ..Default::default() }
}
fn request(uri: &Url, o: FormattingOptions) -> DocumentFormattingParams {
    DocumentFormattingParams { text_document: TextDocumentIdentifier::new(uri.clone()), options: o, work_done_progress_params: Default::default() }
}
fn change_of(uri: &Url, version: i32, c: Vec<TextDocumentContentChangeEvent>) -> DidChangeTextDocumentParams {
    DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier { uri: uri.clone(), version }, content_changes: c }
}
fn splice(t: &str, s: usize, e: usize, new: &str) -> String {
    format!("{}{}{}", &t[..s], new, &t[e..])
}
/// a change of the client's text, and what it is told to the server
fn change(client: &mut String, max: usize, crlf: bool, e: Enc) -> TextDocumentContentChangeEvent {
    let new = text(max, crlf);
    let s = stops(client);
    let a = pick(s.len() as u64);
    let b = a + pick((s.len() - a) as u64);
    let range = Range::new(position(client, s[a], e), position(client, s[b], e));
    *client = splice(client, s[a], s[b], &new);
    TextDocumentContentChangeEvent { range: Some(range), range_length: None, text: new }
}
const CONF: [&str; 6] = [
    "",
    "[format]\nindent-width = 3\nline-ending = \"crlf\"\n",
    "[format]\nexclude = [\"x.R\"]\n",
    "[format]\nindent-style = \"tab\"\ndefault-exclude = false\nline-ending = \"lf\"\n",
    "[format]\nindent-width = 0\n",
    "[format]\nindent-width = 7\nline-ending = \"auto\"\n",
];
/// is the formatting answer right for this text of the client?
fn judge(r: tower_lsp::jsonrpc::Result<Option<Vec<TextEdit>>>, client: &str, crlf: bool, e: Enc, i: Indent, excluded: bool, cell: bool) {
    let t = client.as_bytes();
    if excluded || any_of(t, b"!") {
        check(matches!(r, Ok(None)), 1);
        return;
    }
    if any_of(t, b"?#") {
        check(r.is_err(), 2);
        return;
    }
    check(r.is_ok(), 3);
    let crlf = crlf && client.contains('\n');
    let mut plain = t.to_vec();
    plain.retain(|b| *b != b'\r');
    let want = reference(&plain, i);
    let unchanged = eq(&want, &plain);
    let want = with_endings(&want, crlf);
    match r.unwrap() {
        None => check(unchanged, 4),
        Some(edits) => {
            let got = apply(client, &edits, e);
            check(got.is_some(), 5);
            let got = got.unwrap();
            let mut cut: &[u8] = &want;
            if cell && cut.ends_with(b"\n") {
                cut = &cut[..cut.len() - 1];
                if crlf {
                    cut = &cut[..cut.len() - 1];
                }
            }
            check(eq(got.as_bytes(), cut), 6);
        }
    }
}
/// Formatting a document: its text as of now, in the client's positions and its line ends.
pub fn h_format() {
    let (max, grow) = (param(0) as usize, param(1) as usize);
    dissimilar::choose_with(|n| pick(n as u64));
    let ws = root().join("ws");
    std::fs::create_dir(&ws).unwrap();
    let conf = [0, 1, 3][pick(3)];
    if conf > 0 {
        std::fs::write(ws.join("air.toml"), CONF[conf]).unwrap();
    }
    let offer = pick(2) + 1;
    let cell = pick(4) == 0;
    let crlf = flag_fixed();
    let done = session(client(nothing), move |s| async move {
        let e = start(&*s, offer, false, vec![folder(&ws)]).await;
        let uri = if cell { Url::parse("vscode-notebook-cell:/n.ipynb#c1").unwrap() } else { file_url(&ws.join("x.R")) };
        let mut client = text(max, crlf);
        let crlf = crlf && client.contains('\n');
        open(&*s, &uri, &client).await;
        if grow > 0 {
            let c = change(&mut client, grow, crlf, e);
            s.did_change(change_of(&uri, 2, vec![c])).await;
        }
        let r = s.formatting(request(&uri, options(4, true))).await;
        let i = if cell || conf == 0 { Indent { tab: false, width: 4 } } else { [Indent { tab: false, width: 2 }, Indent { tab: false, width: 3 }, Indent { tab: false, width: 2 }, Indent { tab: true, width: 2 }][conf] };
        cover(matches!(r, Ok(None)), 1);
        cover(matches!(&r, Ok(Some(v)) if v.len() > 1), 2);
        cover(r.is_err(), 3);
        cover(crlf && conf == 1, 4);
        judge(r, &client, crlf, e, i, false, cell);
    });
    check(done, 90);
}

// ---------------------------------------------------------------- which settings
/// what one of `CONF` says; `None`: nothing, or nothing which can be used
#[derive(Clone, Copy, PartialEq, Debug)]
struct Says {
    indent: Indent,
    line: u16,
    exclude_x: bool,
    default_exclude: bool,
}
fn says(conf: usize) -> Option<Says> {
    let d = Says { indent: Indent { tab: false, width: 2 }, line: 80, exclude_x: false, default_exclude: true };
    match conf {
        1 => Some(Says { indent: Indent { tab: false, width: 3 }, ..d }),
        2 => Some(Says { exclude_x: true, ..d }),
        3 => Some(Says { indent: Indent { tab: true, width: 2 }, default_exclude: false, ..d }),
        5 => Some(Says { indent: Indent { tab: false, width: 7 }, ..d }),
        _ => None,
    }
}
fn sized(tab_size: u32, insert_spaces: bool) -> Indent {
    Indent { tab: !insert_spaces, width: if (1..=24).contains(&tab_size) { tab_size as usize } else { 2 } }
}
/// Which configuration applies to a document: the one of the innermost workspace folder it is in (or of the only folder, when it is not
/// saved yet), and the options of the editor otherwise.
pub fn h_which() {
    let base = root().join("p");
    let (ws, sub) = (base.join("ws"), base.join("ws/sub"));
    for d in [&base, &ws, &sub, &ws.join("renv"), &base.join("wsx")] {
        std::fs::create_dir(d).unwrap();
    }
    let conf = [pick(6), [0, 5][pick(2)]];
    for (d, k) in [&ws, &sub].iter().zip(conf) {
        if k > 0 {
            std::fs::write(d.join(["air.toml", ".air.toml"][k & 1]), CONF[k]).unwrap();
        }
    }
    let folders = pick(4);
    let kind = pick(9);
    let tab_size = u32_any();
    assume((tab_size <= 3) | (tab_size >= 24));
    let spaces = flag_fixed();
    let late = flag_fixed();
    let closed = pick(8) == 0;
    let done = session(client(nothing), move |s| async move {
        let all: Vec<WorkspaceFolder> = match folders {
            0 => vec![],
            1 => vec![folder(&ws)],
            2 => vec![folder(&ws), folder(&sub)],
            _ => vec![folder(&sub)],
        };
        let e = if late {
            let e = start(&*s, 1, false, vec![]).await;
            let event = WorkspaceFoldersChangeEvent { added: all, removed: vec![] };
            s.did_change_workspace_folders(DidChangeWorkspaceFoldersParams { event }).await;
            e
        } else {
            start(&*s, 1, false, all).await
        };
        let uri = match kind {
            0 => file_url(&ws.join("x.R")),
            1 => file_url(&sub.join("x.R")),
            2 => file_url(&base.join("wsx/x.R")),
            3 => file_url(&ws.join("renv/y.R")),
            4 => file_url(&ws.join("notes.txt")),
            5 => Url::parse("untitled:Untitled-1").unwrap(),
            6 => Url::parse("vscode-notebook-cell:/n.ipynb#c1").unwrap(),
            7 => file_url(&sub.join("y.R")),
            // others which are no cells
            _ => Url::parse(["vscode-remote://ssh/n.R", "vscode-notebook:/n.ipynb", "vscode-notebook-cell-output:/n.R"][pick(3)]).unwrap(),
        };
        let of_ws = says(conf[0]);
        // a folder takes the nearest configuration above it, if there is none of its own
        let of_sub = if conf[1] == 0 { if conf[0] == 4 { None } else { of_ws } } else { says(conf[1]) };
        let applies = match (kind, folders) {
            (1 | 7, 2 | 3) => of_sub,
            (0 | 3 | 4 | 1 | 7, 1 | 2) => of_ws,
            (5, 1) => of_ws,
            (5, 3) => of_sub,
            _ => None,
        };
        let excluded = match kind {
            0 | 1 | 2 => applies.is_some_and(|a| a.exclude_x),
            3 => applies.is_none_or(|a| a.default_exclude),
            _ => false,
        };
        let client = format!("{{\n> {} b\n}}\n", letter());
        let client = client.as_str();
        open(&*s, &uri, client).await;
        if closed {
            s.did_close(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier::new(uri.clone()) }).await;
        }
        let r = s.formatting(request(&uri, options(tab_size, spaces))).await;
        if closed {
            check(r.is_err(), 7);
            cover(true, 3);
            return;
        }
        let i = applies.map_or(sized(tab_size, spaces), |a| a.indent);
        judge(r, client, false, e, i, excluded, kind == 6);
        cover(excluded, 1);
        cover(applies.is_some(), 2);
    });
    check(done, 90);
}
// ---------------------------------------------------------------- schedules
type Answer = tower_lsp::jsonrpc::Result<Option<Vec<TextEdit>>>;
/// a request on its way, and what its answer has to be
struct Sent {
    handle: tokio::task::JoinHandle<Answer>,
    /// the text at the time it was sent; `None`: not open
    text: Option<String>,
    indent: Indent,
}
/// However the server's tasks take turns: every request is answered, once, by what was sent before it and nothing that was sent after it.
pub fn h_schedule() {
    let (steps, kinds) = (param(0) as usize, param(1));
    let ws = root().join("ws");
    std::fs::create_dir(&ws).unwrap();
    let fault = if kinds == 8 { pick(3) } else { 0 };
    let c = client(move |i| match (fault, i.section.as_deref()) {
        (1, Some("air.syncFileSettingsWithClient")) => serde_json::Value::String("x".to_string()),
        (_, Some("air.syncFileSettingsWithClient")) => serde_json::Value::Bool(true),
        _ => serde_json::Value::Null,
    });
    c.short.set(fault == 2);
    let done = session(c, move |s| async move {
        let e = start(&*s, 1, true, vec![folder(&ws)]).await;
        let uri = file_url(&ws.join("x.R"));
        let other = file_url(&ws.join("y.R"));
        tokio::choose_with(|n| pick(n as u64));
        let mut text = Some(format!("> {}\n", letter()));
        open(&*s, &uri, text.as_ref().unwrap()).await;
        let mut toml = false;
        let mut version = 1;
        let mut sent: Vec<Sent> = vec![];
        for k in 0..steps {
            match pick(kinds) {
                // a request which is not waited for
                0 => {
                    let (s, u) = (s.clone(), uri.clone());
                    let width = k as u32 + 4;
                    let handle = tokio::start(async move { s.formatting(request(&u, options(width, true))).await });
                    let indent = Indent { tab: toml, width: if toml { 2 } else { width as usize } };
                    sent.push(Sent { handle, text: text.clone(), indent });
                }
                // a change, also of what is not open
                1 => {
                    let new = letter();
                    version += 1;
                    let range = Some(Range::new(Position::new(0, 0), Position::new(0, 0)));
                    let c = TextDocumentContentChangeEvent { range, range_length: None, text: new.clone() };
                    s.did_change(change_of(&uri, version, vec![c])).await;
                    if let Some(t) = &mut text {
                        t.insert_str(0, &new);
                    }
                }
                // others go on
                2 => tokio::pause().await,
                // closed, or opened again
                3 => match text.take() {
                    Some(_) => s.did_close(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier::new(uri.clone()) }).await,
                    None => {
                        text = Some(format!("> {}\n", letter()));
                        version = 1;
                        open(&*s, &uri, text.as_ref().unwrap()).await;
                    }
                },
                // a request which is given up
                4 => {
                    if let Some(x) = sent.pop() {
                        x.handle.abort();
                        cover(true, 1);
                    }
                }
                // something which fails
                5 => s.did_close(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier::new(other.clone()) }).await,
                // the settings of the client
                6 => s.did_change_configuration(DidChangeConfigurationParams::default()).await,
                // a configuration file appears
                _ => {
                    if !toml {
                        toml = true;
                        let f = ws.join("air.toml");
                        std::fs::write(&f, CONF[3]).unwrap();
                        let changes = vec![FileEvent { uri: file_url(&f), typ: FileChangeType::CREATED }];
                        s.did_change_watched_files(DidChangeWatchedFilesParams { changes }).await;
                    }
                }
            }
        }
        for x in sent {
            let r = x.handle.await;
            check(r.is_ok(), 91);
            let r = r.unwrap();
            match &x.text {
                None => check(r.is_err(), 7),
                Some(t) => judge(r, t, false, e, x.indent, false, false),
            }
            cover(x.text.is_some(), 2);
        }
        check(s.shutdown().await.is_ok(), 92);
        cover(true, 3);
    });
    check(done, 90);
}
// ---------------------------------------------------------------- ranges
/// An expression of the mini language: where what belongs to it starts and ends (with blanks and comments), and its text.
struct Expr {
    full: usize,
    start: usize,
    end: usize,
    tail: usize,
    /// with comments, but not the blanks around
    outer: (usize, usize),
    kids: Option<Vec<Expr>>,
}
struct Reader<'a>(&'a [u8], usize);
impl Reader<'_> {
    fn peek(&self) -> u8 {
        if self.1 < self.0.len() { self.0[self.1] } else { 0 }
    }
    fn comment(&mut self) {
        while (self.1 < self.0.len()) && self.peek() != b'\n' {
            self.1 += 1;
        }
    }
    /// blanks and comments; where the first comment starts and the last one ends
    fn skip(&mut self, lines: bool) -> Option<(usize, usize)> {
        let mut c: Option<(usize, usize)> = None;
        loop {
            match self.peek() {
                b' ' | b'\t' => self.1 += 1,
                b'\n' if lines => self.1 += 1,
                b'%' => {
                    let s = self.1;
                    self.comment();
                    c = Some((c.map_or(s, |x| x.0), self.1));
                }
                _ => return c,
            }
        }
    }
    /// `None`: braces which are not closed, or not opened
    fn expr(&mut self, full: usize, before: Option<(usize, usize)>) -> Option<Expr> {
        let start = self.1;
        let mut kids = None;
        let (end, after);
        match self.peek() {
            b'{' => {
                self.1 += 1;
                self.skip(false);
                let list = self.list(false)?;
                if self.peek() != b'}' {
                    return None;
                }
                self.1 += 1;
                end = self.1;
                after = self.skip(false);
                kids = Some(list);
            }
            b'-' => {
                self.1 += 1;
                let e = self.1;
                let a = self.skip(false);
                if self.1 < self.0.len() && self.peek() != b'\n' && self.peek() != b'}' {
                    let inner = self.expr(self.1, None)?;
                    end = inner.end;
                    after = if inner.outer.1 > inner.end { Some(inner.outer) } else { None };
                    kids = inner.kids;
                } else {
                    end = e;
                    after = a;
                }
            }
            b'}' => return None,
            _ => {
                while self.1 < self.0.len() && !matches!(self.peek(), b' ' | b'\t' | b'\n' | b'%' | b'{' | b'}' | b'-') {
                    self.1 += 1;
                }
                end = self.1;
                after = self.skip(false);
            }
        }
        let outer = (before.map_or(start, |c| c.0), after.map_or(end, |c| c.1));
        Some(Expr { full, start, end, tail: self.1, outer, kids })
    }
    fn list(&mut self, top: bool) -> Option<Vec<Expr>> {
        let mut v = vec![];
        loop {
            let full = self.1;
            let before = self.skip(true);
            if self.1 == self.0.len() || (!top && self.peek() == b'}') {
                return Some(v);
            }
            v.push(self.expr(full, before)?);
        }
    }
}
/// the innermost list with both ends
fn innermost(list: &[Expr], s: usize, e: usize) -> &[Expr] {
    for x in list {
        if let Some(kids) = &x.kids {
            if !kids.is_empty() && kids[0].full <= s && s < kids[kids.len() - 1].tail && kids[0].start <= e && e <= kids[kids.len() - 1].tail {
                return innermost(kids, s, e);
            }
        }
    }
    list
}
/// any text with up to `max` characters in place of each `@`
fn filled(pattern: &str, max: usize) -> String {
    let mut out = vec![];
    for c in pattern.bytes() {
        if c != b'@' {
            out.push(c);
            continue;
        }
        for _ in 0..len(0, max) {
            let b = byte();
            assume((b < 0x80) & (b != b'\r') & (b != 0) & (b != b'!') & (b != b'?') & (b != b'#'));
            out.push(b);
        }
    }
    plain(out)
}
fn plain(bytes: Vec<u8>) -> String {
    String::from_utf8(bytes).unwrap()
}
/// Formatting a selection: the expressions of one list which it touches are formatted, and nothing else changes.
pub fn h_range() {
    let (patterns, max) = (param(0) as usize, param(1) as usize);
    let patterns: &'static [&'static str] = match patterns {
        0 => &["@"],
        1 => &["a b\n@\nc", "𐐀 {\n>d %e\n@\n}\n%f\n", "{ {@} %c\n\n}-{g}"],
        _ => &["{@}\n@", "@{@\n@}"],
    };
    dissimilar::choose_with(|n| pick(n as u64));
    let ws = root().join("ws");
    std::fs::create_dir(&ws).unwrap();
    let (conf, offer, crlf) = [(0, 1, false), (1, 2, true), (0, 1, true), (2, 2, false), (1, 1, false)][pick(5)];
    if conf > 0 {
        std::fs::write(ws.join("air.toml"), CONF[conf]).unwrap();
    }
    let done = session(client(nothing), move |s| async move {
        let e = start(&*s, offer, false, vec![folder(&ws)]).await;
        let uri = file_url(&ws.join("x.R"));
        let mut text = filled(patterns[pick(patterns.len() as u64)], max);
        match pick(4) {
            0 => text.push_str("!"),
            1 => text.insert_str(0, "? "),
            2 => text.push_str("\n#"),
            _ => {}
        }
        let client = String::from_utf8(with_endings(text.as_bytes(), crlf)).unwrap();
        open(&*s, &uri, &client).await;
        let at = stops(&text);
        let a = pick(at.len() as u64);
        let b = a + pick((at.len() - a) as u64);
        let (a, b) = (at[a], at[b]);
        let range = Range::new(position(&text, a, e), position(&text, b, e));
        let text_document = TextDocumentIdentifier::new(uri.clone());
        let p = DocumentRangeFormattingParams { text_document, range, options: options(4, true), work_done_progress_params: Default::default() };
        let t = text.as_bytes();
        let Some(list) = Reader(t, 0).list(true) else {
            assume(false);
            return;
        };
        let r = s.range_formatting(p).await;
        if conf == 2 || any_of(t, b"!") {
            check(matches!(r, Ok(None)), 1);
            return;
        }
        let lines = innermost(&list, a, b);
        let first = lines.iter().position(|x| x.full <= a && a < x.tail);
        let picked: &[Expr] = match first {
            Some(f) => &lines[f..f.max(lines.iter().filter(|x| x.start <= b).count())],
            None => &[],
        };
        cover(picked.len() > 1, 2);
        cover(!std::ptr::eq(lines, list.as_slice()) && picked.len() == 1, 3);
        let mut want = t.to_vec();
        if !picked.is_empty() {
            let (s, f) = (picked[0].outer.0, picked[picked.len() - 1].outer.1);
            if any_of(&t[s..f], b"?#") {
                check(r.is_err(), 2);
                cover(true, 4);
                return;
            }
            let i = Indent { tab: false, width: [4, 3][conf] };
            want = [&t[..s], &reference(text[s..f].trim_matches([' ', '\t', '\n']).as_bytes(), i), &t[f..]].concat();
        }
        let want = with_endings(&want, crlf && any_of(t, b"\n"));
        check(r.is_ok(), 3);
        let got = match r.unwrap() {
            None => client.clone(),
            Some(edits) => {
                cover(true, 1);
                let got = apply(&client, &edits, e);
                check(got.is_some(), 5);
                got.unwrap()
            }
        };
        check(eq(got.as_bytes(), &want), 6);
        if picked.is_empty() {
            check(eq(got.as_bytes(), client.as_bytes()), 8);
        }
    });
    check(done, 90);
}
// ---------------------------------------------------------------- histories of settings
#[derive(Default)]
struct Answers {
    sync: Cell<bool>,
}
const PLACES: [&str; 3] = ["w/x.R", "w/a/x.R", "v/x.R"];
/// The state of the world of `h_settings`.
struct World {
    base: PathBuf,
    /// the configuration of `w`, `w/a` and `v`
    conf: [usize; 3],
    /// is the folder open?
    folders: [bool; 3],
    /// is the document open? the last one is not a file
    docs: [bool; 4],
    /// `line-width` of the configuration
    line: [u16; 3],
}
const DIRS: [&str; 3] = ["w", "w/a", "v"];
impl World {
    fn uri(&self, d: usize) -> Url {
        if d == 3 { Url::parse("untitled:U").unwrap() } else { file_url(&self.base.join(PLACES[d])) }
    }
    fn dir(&self, d: usize) -> PathBuf {
        self.base.join(DIRS[d])
    }
    /// its configuration file
    fn file(&self, d: usize) -> PathBuf {
        self.dir(d).join(if d == 0 { "air.toml" } else { ".air.toml" })
    }
    /// the configuration of a folder
    fn of_folder(&self, f: usize) -> Option<Says> {
        let f = if f == 1 && self.conf[1] == 0 { 0 } else { f };
        says(self.conf[f]).map(|s| Says { line: self.line[f], ..s })
    }
    /// writes a configuration of any `line-width`
    fn configure(&mut self, d: usize, k: usize) {
        let (a, b) = (byte(), byte());
        assume((a >= b'0') & (a <= b'9') & (b >= b'0') & (b <= b'9'));
        let text = plain([CONF[k].as_bytes(), b"line-width = 2", &[a, b, b'\n']].concat());
        std::fs::write(self.file(d), text).unwrap();
        self.conf[d] = k;
        self.line[d] = 200 + (a - b'0') as u16 * 10 + (b - b'0') as u16;
    }
    fn of_doc(&self, d: usize) -> Option<Says> {
        let f = match d {
            0 if self.folders[0] => 0,
            1 if self.folders[1] => 1,
            1 if self.folders[0] => 0,
            2 if self.folders[2] => 2,
            3 => {
                let open: Vec<usize> = (0..3).filter(|i| self.folders[*i]).collect();
                if open.len() != 1 {
                    return None;
                }
                open[0]
            }
            _ => return None,
        };
        self.of_folder(f)
    }
}
/// Whatever happens to folders, files and the client's settings, a document is formatted by what applies to it now, and a client which
/// asked for it knows what that is.
pub fn h_settings() {
    let (steps, nested) = (param(0) as usize, param(1) != 0);
    let base = root().join("p");
    for d in ["", "w", "w/a", "v"] {
        std::fs::create_dir(base.join(d)).unwrap();
    }
    let answers = Rc::new(Answers::default());
    let a2 = answers.clone();
    let c = client(move |i| match i.section.as_deref() {
        Some("air.syncFileSettingsWithClient") => serde_json::Value::Bool(a2.sync.get()),
        _ => serde_json::Value::Null,
    });
    let told = c.told.clone();
    let done = session(c, move |s| async move {
        let mut w = World { base, conf: [0; 3], folders: [false; 3], docs: [false; 4], line: [80; 3] };
        // what there is at first
        let first = pick(4);
        if first > 0 {
            w.configure(0, [0, 1, 4, 5][first]);
        }
        let mut folders = vec![];
        if flag_fixed() {
            w.folders[0] = true;
            folders.push(folder(&w.dir(0)));
        }
        let mut sync = flag_fixed();
        answers.sync.set(sync);
        let e = start(&*s, 1, true, folders).await;
        let mut active = false; // did the server learn that it is to synchronize?
        let client = format!("> {}\n", letter());
        if flag_fixed() {
            open(&*s, &w.uri(0), &client).await;
            w.docs[0] = true;
            active = sync;
        }
        for _ in 0..steps {
            let before = told_count(&told);
            match pick(5) {
                // a configuration file is written or removed
                0 => {
                    let d = if nested { pick(2) } else { [0, 2][pick(2)] };
                    let k = [0, 1, 4, 5][pick(4)];
                    let (new, old) = (w.file(d), w.conf[d]);
                    let typ = if k == 0 {
                        if old == 0 {
                            continue;
                        }
                        std::fs::remove_file(&new).unwrap();
                        w.conf[d] = 0;
                        FileChangeType::DELETED
                    } else {
                        w.configure(d, k);
                        if old == 0 { FileChangeType::CREATED } else { FileChangeType::CHANGED }
                    };
                    // the notification may have other files in it
                    let other = FileEvent { uri: file_url(&w.base.join("w/y.toml")), typ: FileChangeType::CHANGED };
                    let mut changes = vec![FileEvent { uri: file_url(&new), typ }];
                    match k {
                        0 => changes.insert(0, other),
                        1 => changes.push(other),
                        _ => {}
                    }
                    s.did_change_watched_files(DidChangeWatchedFilesParams { changes }).await;
                }
                // a folder is opened or closed
                1 => {
                    let which: &[usize] = if nested { [&[0][..], &[1]][pick(2)] } else { [&[0][..], &[2], &[0, 2]][pick(3)] };
                    let mut event = WorkspaceFoldersChangeEvent { added: vec![], removed: vec![] };
                    for &d in which {
                        w.folders[d] = !w.folders[d];
                        if w.folders[d] { &mut event.added } else { &mut event.removed }.push(folder(&w.dir(d)));
                    }
                    s.did_change_workspace_folders(DidChangeWorkspaceFoldersParams { event }).await;
                }
                // a document is opened or closed
                2 => {
                    let d = if nested { pick(2) } else { [0, 2, 3][pick(3)] };
                    let uri = w.uri(d);
                    w.docs[d] = !w.docs[d];
                    if w.docs[d] {
                        open(&*s, &uri, &client).await;
                        active |= sync;
                    } else {
                        s.did_close(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier::new(uri) }).await;
                    }
                }
                // the client's settings change
                3 => {
                    sync = !sync;
                    answers.sync.set(sync);
                    s.did_change_configuration(DidChangeConfigurationParams::default()).await;
                    active = sync;
                }
                _ => {
                    let d = if nested { pick(2) } else { [0, 2, 3][pick(3)] };
                    let uri = w.uri(d);
                    let r = s.formatting(request(&uri, options(4, true))).await;
                    if !w.docs[d] {
                        check(r.is_err(), 21);
                    } else {
                        let i = w.of_doc(d).map_or(Indent { tab: false, width: 4 }, |x| x.indent);
                        judge(r, &client, false, e, i, false, false);
                    }
                    cover(w.docs[d] && w.of_doc(d).is_some(), 1);
                    continue;
                }
            }
            // an answer shows that everything before was handled
            let _ = s.formatting(request(&Url::parse("untitled:none").unwrap(), options(4, true))).await;
            if !active {
                check(told_count(&told) == before, 22);
                continue;
            }
            // what the client knows
            let table = table(&told);
            for d in 0..4 {
                if !w.docs[d] {
                    continue;
                }
                let uri = w.uri(d);
                let knows: Vec<&(String, Says)> = table.iter().filter(|x| x.0 == uri.as_str()).collect();
                match w.of_doc(d) {
                    None => check(knows.is_empty(), 23),
                    Some(x) => {
                        check(knows.len() == 1, 24);
                        check(knows[0].1.indent == x.indent && knows[0].1.line == x.line, 25);
                    }
                }
                cover(knows.len() == 1, 2);
            }
        }
        cover(!sync, 3);
    });
    check(done, 90);
}
fn told_count(told: &Told) -> usize {
    told.borrow().iter().filter(|x| x.0 == "air/syncFileSettings").count()
}
/// what the last notification says
fn table(told: &Told) -> Vec<(String, Says)> {
    let t = told.borrow();
    let Some(last) = t.iter().rev().find(|x| x.0 == "air/syncFileSettings") else {
        return vec![];
    };
    let mut out = vec![];
    for f in last.1["file_settings"].as_array().unwrap() {
        let g = &f["format"];
        let indent = Indent { tab: g["indent_style"] == "tab", width: g["indent_width"].as_u64().unwrap() as usize };
        check(indent.tab || g["indent_style"] == "space", 26);
        let line = g["line_width"].as_u64().unwrap() as u16;
        out.push((f["url"].as_str().unwrap().to_string(), Says { indent, line, exclude_x: false, default_exclude: true }));
    }
    out
}
// ---------------------------------------------------------------- setting up
const LEVELS: [(&str, tracing::Level); 5] =
    [("error", tracing::Level::ERROR), ("warn", tracing::Level::WARN), ("info", tracing::Level::INFO), ("debug", tracing::Level::DEBUG), ("trace", tracing::Level::TRACE)];
fn level_of(s: &str) -> Option<tracing::Level> {
    let mut r = None;
    for (n, l) in LEVELS {
        if eq(s.as_bytes(), n.as_bytes()) {
            r = Some(l);
        }
    }
    r
}
/// does a glob of file watchers match this path (`**`, `*`, `{a,b}`)?
fn glob(g: &[u8], p: &[u8]) -> bool {
    match g {
        [] => p.is_empty(),
        [b'*', b'*', b'/', rest @ ..] => glob(rest, p) || (0..p.len()).any(|i| p[i] == b'/' && glob(rest, &p[i + 1..])),
        [b'*', b'*'] => true,
        [b'*', rest @ ..] => (0..=p.len()).take_while(|&i| i == 0 || p[i - 1] != b'/').any(|i| glob(rest, &p[i..])),
        [b'{', ..] => {
            let end = g.iter().position(|b| *b == b'}').unwrap();
            g[1..end].split(|b| *b == b',').any(|o| p.starts_with(o) && glob(&g[end + 1..], &p[o.len()..]))
        }
        [c, rest @ ..] => p.first() == Some(c) && glob(rest, &p[1..]),
    }
}
const DOCUMENT: [&str; 3] = ["editor.insertSpaces", "editor.indentSize", "editor.tabSize"];
const GLOBAL: [&str; 3] = ["air.logLevel", "air.dependencyLogLevels", "air.syncFileSettingsWithClient"];
/// What is agreed at the start, and the level of the logs.
pub fn h_setup() {
    let edit = param(0) as usize;
    // one of the three places a level comes from is anything near a level; or everything the client can do varies
    let odd = pick(4);
    let configuration = flag_fixed();
    let (dynamic, watch, offer) = if odd == 3 { (flag_fixed(), flag_fixed(), pick(5)) } else { (true, true, 1) };
    let bare = configuration && dynamic && watch && flag_fixed();
    let say = |place: usize, word: usize| -> String {
        if odd == place {
            let s = near(LEVELS[word].0, edit, edit);
            let mut ok = true;
            for b in s.bytes() {
                ok &= b != 0;
            }
            assume(ok);
            s
        } else {
            LEVELS[word].0.to_string()
        }
    };
    let env = match pick(2) {
        0 => None,
        _ => Some(say(0, 3)),
    };
    if let Some(e) = &env {
        unsafe { std::env::set_var("AIR_LOG_LEVEL", e) };
    }
    let dependencies = flag_fixed();
    if dependencies {
        unsafe { std::env::set_var("AIR_DEPENDENCY_LOG_LEVELS", "ignore=trace") };
    }
    let kind = pick(5);
    let init = match kind {
        0 => None,
        1 => Some(say(1, 1)),
        2 => Some("trace".to_string()),
        3 => Some("error".to_string()),
        _ => None,
    };
    let answers = pick(4);
    let answer = if answers == 2 { say(2, 0) } else { String::new() };
    let said = answer.clone();
    let from_env = env.as_deref().and_then(level_of);
    let from_init = init.as_deref().and_then(level_of);
    let to_dependency = kind == 2;
    cover(from_env.is_some(), 1);
    let cl = client(move |i| {
        if answers == 1 {
            return serde_json::json!(7);
        }
        if i.section.as_deref() == Some("air.logLevel") && answers == 2 {
            return serde_json::Value::String(answer.clone());
        }
        serde_json::Value::Null
    });
    let (told, asked) = (cl.told.clone(), cl.asked.clone());
    let done = session(cl, move |s| async move {
        let mut c = capabilities(offer, configuration);
        if bare {
            c.workspace = None;
        } else {
            let w = c.workspace.as_mut().unwrap();
            w.did_change_configuration = Some(DidChangeConfigurationClientCapabilities { dynamic_registration: Some(dynamic) });
            w.did_change_watched_files = Some(DidChangeWatchedFilesClientCapabilities { dynamic_registration: Some(watch), relative_pattern_support: None });
        }
        let (configuration, dynamic, watch) = (configuration && !bare, dynamic && !bare, watch && !bare);
        let options = match kind {
            0 => None,
            1 | 3 => Some(serde_json::json!({ "logLevel": init.clone().unwrap() })),
            2 => Some(serde_json::json!({ "logLevel": "trace", "dependencyLogLevels": "tokio=debug,tower_lsp=warn" })),
            _ => Some(serde_json::json!({ "logLevel": 7 })),
        };
        let p = InitializeParams { capabilities: c, initialization_options: options, ..Default::default() };
        let r = s.initialize(p).await;
        check(r.is_ok(), 60);
        let k = r.unwrap().capabilities.position_encoding.unwrap_or(PositionEncodingKind::UTF16);
        let utf8 = offer == 2 || offer == 3;
        check((k == PositionEncodingKind::UTF16) | (utf8 & (k == PositionEncodingKind::UTF8)), 84);
        let level = |t: &str| tracing_subscriber::current().unwrap().level(t);
        let want = from_env.or(from_init).unwrap_or(tracing::Level::INFO);
        for t in ["air", "lsp", "workspace", "lsp::main_loop"] {
            check(level(t) == Some(want), 61);
        }
        let dep = if to_dependency && !dependencies { Some(tracing::Level::DEBUG) } else { None };
        let ignore = if dependencies { Some(tracing::Level::TRACE) } else { None };
        check(level("tokio") == dep, 62);
        check(level("ignore") == ignore, 62);
        check(told.borrow().is_empty(), 63);

        s.initialized(InitializedParams {}).await;
        let uri = Url::parse("file:///n/x.R").unwrap();
        open(&*s, &uri, "a\n").await;
        // a request is answered when everything before it was dealt with
        let r = s.formatting(request(&uri, self::options(2, true))).await;
        check(r.is_ok(), 64);
        let mut watched: Vec<String> = vec![];
        let mut sections: Vec<String> = vec![];
        for (m, o) in told.borrow().iter() {
            if m == "workspace/didChangeWatchedFiles" {
                for w in o["watchers"].as_array().unwrap() {
                    let kind = &w["kind"];
                    check(kind.is_null() || kind == 7, 65);
                    watched.push(w["globPattern"].as_str().unwrap().to_string());
                }
            } else if m == "workspace/didChangeConfiguration" {
                sections.push(o["section"].as_str().unwrap_or("").to_string());
            } else {
                check(false, 66);
            }
        }
        check(watched.is_empty() == !watch, 67);
        if watch {
            for f in ["air.toml", ".air.toml", "a/air.toml", "a/.air.toml", "/a/b/air.toml", "/a/b/.air.toml"] {
                check(watched.iter().any(|g| glob(g.as_bytes(), f.as_bytes())), 68);
            }
        }
        check(sections.is_empty() == !dynamic, 69);
        if dynamic {
            for x in DOCUMENT.iter().chain(&GLOBAL) {
                check(sections.iter().any(|y| x.starts_with(y.as_str())), 70);
            }
        }
        // questions
        check(asked.borrow().is_empty() == !configuration, 71);
        for q in asked.borrow().iter() {
            for x in DOCUMENT {
                check(q.iter().any(|i| i.section.as_deref() == Some(x) && i.scope_uri.as_ref() == Some(&uri)), 72);
            }
            for x in GLOBAL {
                check(q.iter().any(|i| i.section.as_deref() == Some(x)), 73);
            }
        }
        let n = asked.borrow().len();
        s.did_change_configuration(DidChangeConfigurationParams { settings: serde_json::Value::Null }).await;
        let r = s.formatting(request(&uri, self::options(2, true))).await;
        check(r.is_ok(), 64);
        check((asked.borrow().len() > n) == configuration, 71);
        // the level after the answers
        let now = level("lsp");
        let valid = level_of(&said);
        if answers == 2 && configuration && valid.is_some() {
            check(now == from_env.or(valid), 74);
            cover(from_env.is_none(), 2);
        } else if !configuration || answers == 1 || answers == 2 || from_init.is_none() || from_env.is_some() {
            check(now == Some(want), 75);
            cover(true, 3);
        }
        check(level("ignore") == ignore, 62);
        observe(watched.len() as u64 * 100 + sections.len() as u64 * 10 + n as u64);
    });
    check(done, 90);
}
entries!(h_format, h_which, h_settings, h_range, h_schedule, h_setup);
