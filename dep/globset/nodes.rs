
// ---- appended by /verif: the pattern as byte sets (what `to_regex_with` denotes)
use crate::Node;
impl Glob {
    pub(crate) fn nodes(&self) -> Result<Vec<Node>, Error> {
        if self.opts.case_insensitive {
            unimplemented!("case insensitive globs are not modelled");
        }
        if self.tokens.len() == 1 && self.tokens[0] == Token::RecursivePrefix {
            return Ok(vec![Node::Star(true, vec![])]);
        }
        let mut v = vec![];
        to_nodes(&self.opts, &self.tokens, &mut v).map_err(|e| Error { glob: Some(self.re.clone()), kind: ErrorKind::Regex(e) })?;
        Ok(v)
    }
}
fn to_nodes(o: &GlobOptions, tokens: &[Token], v: &mut Vec<Node>) -> Result<(), String> {
    let slash = || Node::Byte(false, vec![(b'/', b'/')]);
    let any = || Node::Star(true, vec![]);
    let nosep = if o.literal_separator { vec![(b'/', b'/')] } else { vec![] };
    for t in tokens {
        match t {
            Token::Literal(c) => {
                let mut buf = [0; 4];
                for &b in c.encode_utf8(&mut buf).as_bytes() {
                    v.push(Node::Byte(false, vec![(b, b)]));
                }
            }
            Token::Any => v.push(Node::Byte(true, nosep.clone())),
            Token::ZeroOrMore => v.push(Node::Star(true, nosep.clone())),
            // (?:/?|.*/)
            Token::RecursivePrefix => v.push(Node::Alt(vec![vec![], vec![any(), slash()]])),
            // /.*
            Token::RecursiveSuffix => {
                v.push(slash());
                v.push(any());
            }
            // (?:/|/.*/)
            Token::RecursiveZeroOrMore => v.push(Node::Alt(vec![vec![slash()], vec![slash(), any(), slash()]])),
            Token::Class { negated, ranges } => {
                // byte by byte, as the text of the class in the (non-Unicode) regular expression
                let mut r = vec![];
                for &(a, b) in ranges {
                    let (mut x, mut y) = ([0; 4], [0; 4]);
                    let x = a.encode_utf8(&mut x).as_bytes();
                    let y = b.encode_utf8(&mut y).as_bytes();
                    if a == b {
                        for &c in x {
                            r.push((c, c));
                        }
                        continue;
                    }
                    for &c in &x[..x.len() - 1] {
                        r.push((c, c));
                    }
                    let l = x[x.len() - 1];
                    if l > y[0] {
                        return Err("invalid character class range, the start must be <= the end".to_string());
                    }
                    r.push((l, y[0]));
                    for &c in &y[1..] {
                        r.push((c, c));
                    }
                }
                v.push(Node::Byte(*negated, r));
            }
            Token::Alternates(alts) => {
                let mut to = vec![];
                for a in alts {
                    let mut w = vec![];
                    to_nodes(o, a, &mut w)?;
                    if !w.is_empty() || o.empty_alternates {
                        to.push(w);
                    }
                }
                if !to.is_empty() {
                    v.push(Node::Alt(to));
                }
            }
        }
    }
    Ok(())
}
