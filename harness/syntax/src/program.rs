//! R programs, as text, as the tree tree-sitter makes of it, and as the tree of air's grammar.
use air_r_syntax::RSyntaxKind::{self, *};
use symrt::*;
use tree_sitter::Data;

#[derive(Clone, Debug)]
pub enum Want {
    Node(RSyntaxKind, Vec<Option<Want>>),
    Token(RSyntaxKind, usize, usize),
}
use Want::Node;

/// What may be in a gap: blanks only, line breaks as well, or also semicolons (between expressions).
#[derive(Clone, Copy, PartialEq)]
pub enum Gap {
    Blank,
    Lines,
    List,
}
pub struct Program {
    pub text: Vec<u8>,
    /// how often the program may still deviate from the plainest one
    pub budget: usize,
    /// how many gaps may still be chosen, of how many bytes between how many comments
    pub gaps: usize,
    pub bytes: usize,
    pub comments: usize,
    /// what was put in: comments, and where the token before them ends
    pub found: Vec<(usize, usize)>,
    /// line breaks may be anywhere
    inside: Vec<bool>,
}
type Both = (Data, Want);
const BINARY: [(&str, RSyntaxKind); 28] = [
    ("+", PLUS),
    ("-", MINUS),
    ("*", MULTIPLY),
    ("/", DIVIDE),
    ("^", EXPONENTIATE),
    ("**", EXPONENTIATE2),
    ("?", WAT),
    (":", COLON),
    ("~", TILDE),
    ("<-", ASSIGN),
    ("<<-", SUPER_ASSIGN),
    (":=", WALRUS),
    ("->", ASSIGN_RIGHT),
    ("->>", SUPER_ASSIGN_RIGHT),
    ("=", EQUAL),
    ("|", OR),
    ("&", AND),
    ("||", OR2),
    ("&&", AND2),
    ("<", LESS_THAN),
    ("<=", LESS_THAN_OR_EQUAL_TO),
    (">", GREATER_THAN),
    (">=", GREATER_THAN_OR_EQUAL_TO),
    ("==", EQUAL2),
    ("!=", NOT_EQUAL),
    ("|>", PIPE),
    ("%in%", SPECIAL),
    ("%%", SPECIAL),
];
const UNARY: [(&str, RSyntaxKind); 5] = [("-", MINUS), ("+", PLUS), ("~", TILDE), ("!", BANG), ("?", WAT)];
/// text, kind for tree-sitter, kind of the node and of its token
const WORDS: [(&str, &str, RSyntaxKind, RSyntaxKind); 12] = [
    ("x", "identifier", R_IDENTIFIER, IDENT),
    ("`é b`", "identifier", R_IDENTIFIER, IDENT),
    ("1.5", "float", R_DOUBLE_VALUE, R_DOUBLE_LITERAL),
    ("...", "dots", R_DOTS, DOTS),
    ("..1", "dot_dot_i", R_DOT_DOT_I, DOTDOTI),
    ("NULL", "null", R_NULL_EXPRESSION, NULL_KW),
    ("next", "next", R_NEXT_EXPRESSION, NEXT_KW),
    ("break", "break", R_BREAK_EXPRESSION, BREAK_KW),
    ("TRUE", "true", R_TRUE_EXPRESSION, TRUE_KW),
    ("FALSE", "false", R_FALSE_EXPRESSION, FALSE_KW),
    ("Inf", "inf", R_INF_EXPRESSION, INF_KW),
    ("NaN", "nan", R_NAN_EXPRESSION, NAN_KW),
];
const NA: [(&str, RSyntaxKind); 5] =
    [("NA", NA_LOGICAL_KW), ("NA_integer_", NA_INTEGER_KW), ("NA_real_", NA_DOUBLE_KW), ("NA_complex_", NA_COMPLEX_KW), ("NA_character_", NA_CHARACTER_KW)];
/// the text of a string: what opens it, is in it and closes it
const STRINGS: [(&str, &str, &str); 4] = [("\"", "ab", "\""), ("'", "", "'"), ("\"", "a\\n # b\r\n;", "\""), ("r\"(", "\n", ")\"")];

pub fn field(name: &'static str, mut b: Both) -> Both {
    b.0.field = Some(name);
    b
}
fn leaf(kind: &'static str, start: usize, end: usize) -> Data {
    Data { kind, field: None, start, end, children: vec![] }
}
/// a node over its children
fn over(kind: &'static str, children: Vec<Data>) -> Data {
    Data { kind, field: None, start: children[0].start, end: children[children.len() - 1].end, children }
}
impl Program {
    pub fn new(budget: usize, gaps: usize, bytes: usize, comments: usize) -> Program {
        Program { text: vec![], budget, gaps, bytes, comments, found: vec![], inside: vec![] }
    }
    /// one of `n`; all but the first cost
    fn vary(&mut self, n: usize) -> usize {
        if self.budget == 0 {
            return 0;
        }
        let i = pick(n as u64);
        if i > 0 {
            self.budget -= 1;
        }
        i
    }
    fn put(&mut self, s: &str) -> (usize, usize) {
        let start = self.text.len();
        self.text.extend_from_slice(s.as_bytes());
        (start, self.text.len())
    }
    fn token(&mut self, kind: &'static str, s: &str, k: RSyntaxKind) -> Both {
        let (a, b) = self.put(s);
        (leaf(kind, a, b), Want::Token(k, a, b))
    }
    fn blanks(&mut self, n: usize, gap: Gap, cr: bool) {
        let at = self.text.len();
        for _ in 0..n {
            let b: u8 = byte();
            let line = gap != Gap::Blank;
            assume((b == b' ') | (b == b'\t') | (b == 12) | ((b == b'\n') & line) | ((b == b'\r') & line) | ((b == b';') & (gap == Gap::List)));
            self.text.push(b);
        }
        if !cr && gap != Gap::Blank {
            // a carriage return belongs to a line feed
            for i in at..self.text.len() {
                let next = self.text.get(i + 1).copied().unwrap_or(0);
                assume((self.text[i] != b'\r') | (next == b'\n'));
            }
        }
    }
    /// What is between two tokens; `plain` unless it was chosen to be something else.
    pub fn gap(&mut self, into: &mut Vec<Data>, gap: Gap, plain: &str) {
        let gap = if gap == Gap::Blank && self.inside.last() == Some(&true) { Gap::Lines } else { gap };
        // without bytes to choose there are only comments
        let only = self.bytes == 0;
        if self.gaps == 0 || (only && gap == Gap::Blank) || pick(2) == 0 {
            self.put(plain);
            return;
        }
        self.gaps -= 1;
        let comments = if gap == Gap::Blank { 0 } else if only { self.comments } else { pick(self.comments as u64 + 1) };
        let n = pick(self.bytes as u64 + 1);
        self.blanks(n, gap, comments == 0 && gap != Gap::Blank);
        for _ in 0..comments {
            let start = self.text.len();
            self.text.push(b'#');
            match if self.bytes == 0 { 0 } else { pick(4) } {
                0 => {}
                1 => {
                    let b = byte();
                    assume((b < 128) & (b != b'\n') & (b != b'\r'));
                    self.text.push(b);
                }
                2 => self.text.extend_from_slice(" a # ".as_bytes()),
                _ => self.text.extend_from_slice("é".as_bytes()),
            }
            self.found.push((start, self.text.len()));
            into.push(leaf("comment", start, self.text.len()));
            self.text.extend_from_slice(if self.bytes == 0 || pick(2) == 0 { b"\n" } else { b"\r\n" });
            let n = pick(self.bytes as u64 + 1);
            self.blanks(n, gap, false);
        }
        // something has to be between words and between expressions
        let last = self.text.last().copied().unwrap_or(0);
        if n == 0 && comments == 0 {
            self.put(plain);
        } else if gap == Gap::List && plain == "\n" {
            assume(self.text[self.text.len() - n..].iter().fold(comments > 0, |a, b| a | (*b == b'\n') | (*b == b';')));
        }
        let _ = last;
    }
    pub fn expr(&mut self) -> Both {
        match self.vary(17) {
            0 => self.word(0),
            1 => {
                let i = 1 + self.vary(WORDS.len() - 1);
                self.word(i)
            }
            2 => {
                let i = self.vary(STRINGS.len());
                self.string(i)
            }
            3 => self.number(),
            4 => {
                let (s, k) = NA[self.vary(NA.len())];
                let (d, w) = self.token(s, s, k);
                (over("na", vec![d]), Node(R_NA_EXPRESSION, vec![Some(w)]))
            }
            5 => {
                let (s, k) = UNARY[self.vary(UNARY.len())];
                let (d, a) = field("operator", self.token(s, s, k));
                let mut c = vec![d];
                self.gap(&mut c, Gap::Lines, "");
                let (d, b) = field("rhs", self.expr());
                c.push(d);
                (over("unary_operator", c), Node(R_UNARY_EXPRESSION, vec![Some(a), Some(b)]))
            }
            6 => {
                let (s, k) = BINARY[self.vary(BINARY.len())];
                self.infix("binary_operator", R_BINARY_EXPRESSION, if k == SPECIAL { "special" } else { s }, s, k)
            }
            7 => {
                let (s, k) = [("$", DOLLAR), ("@", AT)][self.vary(2)];
                self.infix("extract_operator", R_EXTRACT_EXPRESSION, s, s, k)
            }
            8 => {
                let (s, k) = [("::", COLON2), (":::", COLON3)][self.vary(2)];
                self.infix("namespace_operator", R_NAMESPACE_EXPRESSION, s, s, k)
            }
            9 => self.function(),
            10 => self.conditional(),
            11 => self.for_loop(),
            12 => {
                let mut c = vec![];
                let a = self.keyword(&mut c, "while", WHILE_KW);
                let [b, x, e] = self.in_parens(&mut c, "condition");
                let f = self.body(&mut c, "body");
                (over("while_statement", c), Node(R_WHILE_STATEMENT, vec![a, b, x, e, f]))
            }
            13 => {
                let mut c = vec![];
                let a = self.keyword(&mut c, "repeat", REPEAT_KW);
                let f = self.body(&mut c, "body");
                (over("repeat_statement", c), Node(R_REPEAT_STATEMENT, vec![a, f]))
            }
            14 => self.braces(),
            15 => {
                let mut c = vec![];
                let [a, b, e] = self.in_parens(&mut c, "body");
                (over("parenthesized_expression", c), Node(R_PARENTHESIZED_EXPRESSION, vec![a, b, e]))
            }
            _ => self.call(),
        }
    }
    fn word(&mut self, i: usize) -> Both {
        let (s, kind, k, t) = WORDS[i];
        let (d, w) = self.token(kind, s, t);
        (d, Node(k, vec![Some(w)]))
    }
    fn number(&mut self) -> Both {
        let (s, kind, k, t) = [("1L", "integer", R_INTEGER_VALUE, R_INTEGER_LITERAL), ("2i", "complex", R_COMPLEX_VALUE, R_COMPLEX_LITERAL)][self.vary(2)];
        let (mut d, w) = self.token(kind, s, t);
        d.children.push(leaf(if kind == "integer" { "L" } else { "i" }, d.end - 1, d.end));
        (d, Node(k, vec![Some(w)]))
    }
    fn string(&mut self, i: usize) -> Both {
        let (open, content, close) = STRINGS[i];
        let (d, a) = field("open", self.token("string_open", open, STRING_OPEN));
        let mut c = vec![d];
        let mut b = None;
        if !content.is_empty() {
            let (mut d, w) = field("content", self.token("string_content", content, STRING_CONTENT));
            if let Some(i) = content.find('\\') {
                d.children.push(leaf("escape_sequence", d.start + i, d.start + i + 2));
            }
            c.push(d);
            b = Some(w);
        }
        let (d, e) = field("close", self.token("string_close", close, STRING_CLOSE));
        c.push(d);
        (over("string", c), Node(R_STRING_VALUE, vec![Some(a), b, Some(e)]))
    }
    fn infix(&mut self, kind: &'static str, k: RSyntaxKind, op: &'static str, s: &str, o: RSyntaxKind) -> Both {
        let tight = k != R_BINARY_EXPRESSION;
        let plain = if tight { "" } else { " " };
        let (d, a) = field("lhs", if k == R_NAMESPACE_EXPRESSION { self.selector() } else { self.expr() });
        let mut c = vec![d];
        self.gap(&mut c, Gap::Blank, plain);
        let (d, b) = field("operator", self.token(op, s, o));
        c.push(d);
        self.gap(&mut c, Gap::Lines, plain);
        let (d, e) = field("rhs", if tight { self.selector() } else { self.expr() });
        c.push(d);
        (over(kind, c), Node(k, vec![Some(a), Some(b), Some(e)]))
    }
    /// a name: an identifier, a string, `...` or `..1`
    fn selector(&mut self) -> Both {
        match self.vary(4) {
            0 => self.word(0),
            1 => self.string(0),
            i => self.word(i + 1),
        }
    }
    fn keyword(&mut self, c: &mut Vec<Data>, s: &'static str, k: RSyntaxKind) -> Option<Want> {
        let (d, w) = self.token(s, s, k);
        c.push(d);
        Some(w)
    }
    /// `( x )`, with a gap before it unless it is the first
    fn in_parens(&mut self, c: &mut Vec<Data>, name: &'static str) -> [Option<Want>; 3] {
        if !c.is_empty() {
            self.gap(c, Gap::Lines, " ");
        }
        let a = self.keyword(c, "(", L_PAREN);
        self.inside.push(true);
        self.gap(c, Gap::Lines, "");
        let (d, x) = field(name, self.expr());
        c.push(d);
        self.gap(c, Gap::Lines, "");
        self.inside.pop();
        let b = self.keyword(c, ")", R_PAREN);
        [a, Some(x), b]
    }
    fn body(&mut self, c: &mut Vec<Data>, name: &'static str) -> Option<Want> {
        self.gap(c, Gap::Lines, " ");
        let (d, x) = field(name, self.expr());
        c.push(d);
        Some(x)
    }
    fn function(&mut self) -> Both {
        let (s, k) = [("function", FUNCTION_KW), ("\\", BACKSLASH)][self.vary(2)];
        let mut c = vec![];
        let name = self.keyword(&mut c, s, k);
        self.gap(&mut c, Gap::Lines, "");
        let mut p = vec![];
        let open = self.keyword(&mut p, "(", L_PAREN);
        self.inside.push(true);
        let n = [1, 0, 2, 3][self.vary(4)];
        let mut list = vec![];
        for i in 0..n {
            if i > 0 {
                self.gap(&mut p, Gap::Lines, "");
                list.push(self.comma(&mut p));
            }
            self.gap(&mut p, Gap::Lines, ["", " "][(i > 0) as usize]);
            let (d, name) = match self.vary(3) {
                0 => self.word(0),
                i => self.word(i + 2),
            };
            let mut q = vec![field("name", (d, name.clone())).0];
            let mut default = None;
            if self.vary(2) == 1 {
                self.gap(&mut q, Gap::Lines, " ");
                let e = self.keyword(&mut q, "=", EQUAL);
                self.gap(&mut q, Gap::Lines, " ");
                let (d, x) = field("default", self.expr());
                q.push(d);
                default = Some(Node(R_PARAMETER_DEFAULT, vec![e, Some(x)]));
            }
            p.push(field("parameter", (over("parameter", q), name.clone())).0);
            list.push(Some(Node(R_PARAMETER, vec![Some(name), default])));
        }
        self.gap(&mut p, Gap::Lines, "");
        let close = self.keyword(&mut p, ")", R_PAREN);
        self.inside.pop();
        c.push(field("parameters", (over("parameters", p), Want::Token(EOF, 0, 0))).0);
        let body = self.body(&mut c, "body");
        let params = Node(R_PARAMETERS, vec![open, Some(Node(R_PARAMETER_LIST, list)), close]);
        (over("function_definition", c), Node(R_FUNCTION_DEFINITION, vec![name, Some(params), body]))
    }
    fn comma(&mut self, c: &mut Vec<Data>) -> Option<Want> {
        let (d, w) = self.token("comma", ",", COMMA);
        c.push(d);
        Some(w)
    }
    fn conditional(&mut self) -> Both {
        let mut c = vec![];
        let a = self.keyword(&mut c, "if", IF_KW);
        let [b, x, e] = self.in_parens(&mut c, "condition");
        let f = self.body(&mut c, "consequence");
        let mut alternative = None;
        if self.vary(2) == 1 {
            // inside of braces or parentheses lines may break here
            self.gap(&mut c, if self.inside.is_empty() { Gap::Blank } else { Gap::Lines }, " ");
            let k = self.keyword(&mut c, "else", ELSE_KW);
            let x = self.body(&mut c, "alternative");
            alternative = Some(Node(R_ELSE_CLAUSE, vec![k, x]));
        }
        (over("if_statement", c), Node(R_IF_STATEMENT, vec![a, b, x, e, f, alternative]))
    }
    fn for_loop(&mut self) -> Both {
        let mut c = vec![];
        let a = self.keyword(&mut c, "for", FOR_KW);
        self.gap(&mut c, Gap::Lines, " ");
        let b = self.keyword(&mut c, "(", L_PAREN);
        self.inside.push(true);
        self.gap(&mut c, Gap::Lines, "");
        let (d, v) = field("variable", self.word(0));
        c.push(d);
        self.gap(&mut c, Gap::Lines, " ");
        let i = self.keyword(&mut c, "in", IN_KW);
        self.gap(&mut c, Gap::Lines, " ");
        let (d, s) = field("sequence", self.expr());
        c.push(d);
        self.gap(&mut c, Gap::Lines, "");
        self.inside.pop();
        let e = self.keyword(&mut c, ")", R_PAREN);
        let f = self.body(&mut c, "body");
        (over("for_statement", c), Node(R_FOR_STATEMENT, vec![a, b, Some(v), i, Some(s), e, f]))
    }
    fn braces(&mut self) -> Both {
        let mut c = vec![];
        let (d, a) = field("open", self.token("{", "{", L_CURLY));
        c.push(d);
        self.inside.push(false);
        let n = [1, 0, 2, 3][self.vary(4)];
        let mut list = vec![];
        self.gap(&mut c, Gap::List, " ");
        for i in 0..n {
            if i > 0 {
                self.gap(&mut c, Gap::List, "\n");
            }
            let (d, x) = field("body", self.expr());
            c.push(d);
            list.push(Some(x));
        }
        if n > 0 {
            self.gap(&mut c, Gap::List, " ");
        }
        self.inside.pop();
        let (d, b) = field("close", self.token("}", "}", R_CURLY));
        c.push(d);
        (over("braced_expression", c), Node(R_BRACED_EXPRESSIONS, vec![Some(a), Some(Node(R_EXPRESSION_LIST, list)), Some(b)]))
    }
    fn call(&mut self) -> Both {
        let (kind, k, open, o, close, e, args) = [
            ("call", R_CALL, "(", L_PAREN, ")", R_PAREN, R_CALL_ARGUMENTS),
            ("subset", R_SUBSET, "[", L_BRACK, "]", R_BRACK, R_SUBSET_ARGUMENTS),
            ("subset2", R_SUBSET2, "[[", L_BRACK2, "]]", R_BRACK2, R_SUBSET2_ARGUMENTS),
        ][self.vary(3)];
        let (d, function) = field("function", self.expr());
        let mut c = vec![d];
        self.gap(&mut c, Gap::Blank, "");
        let mut p = vec![];
        let (d, a) = field("open", self.token(open, open, o));
        p.push(d);
        self.inside.push(true);
        let commas = self.vary(4);
        let mut list = vec![];
        for i in 0..=commas {
            if i > 0 {
                self.gap(&mut p, Gap::Lines, "");
                list.push(self.comma(&mut p));
            }
            // a value, nothing, a name with a value, a name
            let what = self.vary(4);
            if what == 1 {
                if commas > 0 {
                    list.push(Some(Node(R_ARGUMENT, vec![None, None])));
                }
                continue;
            }
            self.gap(&mut p, Gap::Lines, ["", " "][(i > 0) as usize]);
            let mut q = vec![];
            let (mut name, mut value) = (None, None);
            if what >= 2 {
                let (d, n) = field(
                    "name",
                    match self.vary(5) {
                        0 => self.word(0),
                        1 => self.string(0),
                        i => self.word(i + 1),
                    },
                );
                q.push(d);
                self.gap(&mut q, Gap::Lines, " ");
                let e = self.keyword(&mut q, "=", EQUAL);
                name = Some(Node(R_ARGUMENT_NAME_CLAUSE, vec![Some(n), e]));
            }
            if what != 3 {
                if what == 2 {
                    self.gap(&mut q, Gap::Lines, " ");
                }
                let (d, x) = field("value", self.expr());
                q.push(d);
                value = Some(x);
            }
            p.push(field("argument", (over("argument", q), Want::Token(EOF, 0, 0))).0);
            list.push(Some(Node(R_ARGUMENT, vec![name, value])));
        }
        self.gap(&mut p, Gap::Lines, "");
        self.inside.pop();
        let (d, b) = field("close", self.token(close, close, e));
        p.push(d);
        c.push(field("arguments", (over("arguments", p), Want::Token(EOF, 0, 0))).0);
        let list = Node(R_ARGUMENT_LIST, list);
        (over(kind, c), Node(k, vec![Some(function), Some(Node(args, vec![Some(a), Some(list), Some(b)]))]))
    }
    /// a whole file
    pub fn file(&mut self) -> Both {
        let mut c = vec![];
        // tree-sitter skips a byte order mark
        let mut bom = None;
        if self.vary(2) == 1 {
            let (a, b) = self.put("\u{feff}");
            bom = Some(Want::Token(UNICODE_BOM, a, b));
        }
        let n = [1, 0, 2][self.vary(3)];
        let mut list = vec![];
        self.gap(&mut c, Gap::List, "");
        for i in 0..n {
            if i > 0 {
                self.gap(&mut c, Gap::List, "\n");
            }
            let (d, x) = self.expr();
            c.push(d);
            list.push(Some(x));
        }
        if n > 0 {
            self.gap(&mut c, Gap::List, "\n");
        }
        let end = self.text.len();
        let want = Node(R_ROOT, vec![bom, Some(Node(R_EXPRESSION_LIST, list)), Some(Want::Token(EOF, end, end))]);
        (Data { kind: "program", field: None, start: 0, end, children: c }, want)
    }
}
