use std::borrow::Cow;

enum Node {
    Char(char),
    Any,
    Class(bool, Vec<(char, char)>),
    Group(usize, Vec<Vec<Node>>),
    Rep(Box<Node>, usize, usize, bool),
    Start,
    End,
}

pub struct Regex {
    alts: Vec<Vec<Node>>,
    groups: usize,
}

#[derive(Debug)]
pub struct Error;

struct Parser {
    s: Vec<char>,
    i: usize,
    groups: usize,
}

impl Parser {
    fn alts(&mut self) -> Result<Vec<Vec<Node>>, Error> {
        let mut out = vec![vec![]];
        while self.i < self.s.len() && self.s[self.i] != ')' {
            let c = self.s[self.i];
            self.i += 1;
            if c == '|' {
                out.push(vec![]);
                continue;
            }
            let n = match c {
                '(' => {
                    let mut g = 0;
                    if self.s[self.i..].starts_with(&['?', ':']) {
                        self.i += 2;
                    } else {
                        self.groups += 1;
                        g = self.groups;
                    }
                    let a = self.alts()?;
                    if self.i >= self.s.len() {
                        return Err(Error);
                    }
                    self.i += 1;
                    Node::Group(g, a)
                }
                '[' => self.class()?,
                '.' => Node::Any,
                '^' => Node::Start,
                '$' => Node::End,
                '\\' => self.escape()?,
                c => Node::Char(c),
            };
            let n = if self.i < self.s.len() && ['*', '+', '?'].contains(&self.s[self.i]) {
                let q = self.s[self.i];
                self.i += 1;
                let lazy = self.i < self.s.len() && self.s[self.i] == '?';
                if lazy {
                    self.i += 1;
                }
                Node::Rep(Box::new(n), (q == '+') as usize, if q == '?' { 1 } else { usize::MAX }, !lazy)
            } else {
                n
            };
            let k = out.len() - 1;
            out[k].push(n);
        }
        Ok(out)
    }

    fn escape(&mut self) -> Result<Node, Error> {
        if self.i >= self.s.len() {
            return Err(Error);
        }
        let c = self.s[self.i];
        self.i += 1;
        Ok(match c {
            'n' => Node::Char('\n'),
            't' => Node::Char('\t'),
            'r' => Node::Char('\r'),
            'f' => Node::Char('\x0c'),
            'v' => Node::Char('\x0b'),
            's' => Node::Class(false, vec![('\t', '\r'), (' ', ' ')]),
            'd' => Node::Class(false, vec![('0', '9')]),
            c if c.is_ascii_alphanumeric() => return Err(Error),
            c => Node::Char(c),
        })
    }

    fn class(&mut self) -> Result<Node, Error> {
        let mut v = vec![];
        let neg = self.i < self.s.len() && self.s[self.i] == '^';
        if neg {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i] != ']' {
            let c = self.s[self.i];
            self.i += 1;
            let a = match if c == '\\' { self.escape()? } else { Node::Char(c) } {
                Node::Char(c) => c,
                Node::Class(_, x) => {
                    v.extend(x);
                    continue;
                }
                _ => return Err(Error),
            };
            if self.i + 1 < self.s.len() && self.s[self.i] == '-' && self.s[self.i + 1] != ']' {
                v.push((a, self.s[self.i + 1]));
                self.i += 2;
            } else {
                v.push((a, a));
            }
        }
        if self.i >= self.s.len() {
            return Err(Error);
        }
        self.i += 1;
        Ok(Node::Class(neg, v))
    }
}

fn step(n: &Node, c: char) -> bool {
    match n {
        Node::Char(x) => *x == c,
        Node::Any => c != '\n',
        Node::Class(neg, v) => v.iter().any(|(a, b)| *a <= c && c <= *b) != *neg,
        _ => false,
    }
}

type Caps = Vec<Option<(usize, usize)>>;
type Next<'a> = dyn FnMut(usize, &mut Caps) -> Option<usize> + 'a;

/// Matches the sequence at i and then the continuation.
fn seq(ns: &[Node], t: &[char], i: usize, c: &mut Caps, k: &mut Next) -> Option<usize> {
    match ns.first() {
        None => k(i, c),
        Some(n) => one(n, t, i, c, &mut |j, c| seq(&ns[1..], t, j, c, k)),
    }
}

fn one(n: &Node, t: &[char], i: usize, c: &mut Caps, k: &mut Next) -> Option<usize> {
    match n {
        Node::Start => if i == 0 { k(i, c) } else { None },
        Node::End => if i == t.len() { k(i, c) } else { None },
        Node::Group(g, alts) => {
            for a in alts {
                let r = seq(a, t, i, c, &mut |j, c| {
                    let old = c[*g];
                    c[*g] = Some((i, j));
                    let r = k(j, c);
                    if r.is_none() {
                        c[*g] = old;
                    }
                    r
                });
                if r.is_some() {
                    return r;
                }
            }
            None
        }
        Node::Rep(n, lo, hi, greedy) => rep(n, *lo, *hi, *greedy, t, i, c, k),
        n => if i < t.len() && step(n, t[i]) { k(i + 1, c) } else { None },
    }
}

fn rep(n: &Node, lo: usize, hi: usize, greedy: bool, t: &[char], i: usize, c: &mut Caps, k: &mut Next) -> Option<usize> {
    if lo == 0 && !greedy {
        if let Some(r) = k(i, c) {
            return Some(r);
        }
    }
    if hi > 0 {
        let r = one(n, t, i, c, &mut |j, c| if j == i { None } else { rep(n, lo.saturating_sub(1), hi - 1, greedy, t, j, c, k) });
        if r.is_some() {
            return r;
        }
    }
    if lo == 0 && greedy { k(i, c) } else { None }
}

impl Regex {
    pub fn new(p: &str) -> Result<Regex, Error> {
        let mut q = Parser { s: p.chars().collect(), i: 0, groups: 0 };
        let alts = q.alts()?;
        if q.i < q.s.len() {
            return Err(Error);
        }
        Ok(Regex { alts, groups: q.groups })
    }

    fn find_at(&self, t: &[char], from: usize) -> Option<Caps> {
        for i in from..=t.len() {
            for a in &self.alts {
                let mut c = vec![None; self.groups + 1];
                if let Some(e) = seq(a, t, i, &mut c, &mut |j, _| Some(j)) {
                    c[0] = Some((i, e));
                    return Some(c);
                }
            }
        }
        None
    }

    /// $n, ${n} and $$ in a replacement.
    fn expand(out: &mut String, rep: &str, t: &[char], c: &Caps) {
        let r: Vec<char> = rep.chars().collect();
        let mut i = 0;
        while i < r.len() {
            if r[i] != '$' || i + 1 == r.len() {
                out.push(r[i]);
                i += 1;
                continue;
            }
            if r[i + 1] == '$' {
                out.push('$');
                i += 2;
                continue;
            }
            let brace = r[i + 1] == '{';
            let mut j = i + 1 + brace as usize;
            let mut n = 0;
            while j < r.len() && r[j].is_ascii_digit() {
                n = n * 10 + (r[j] as usize - '0' as usize);
                j += 1;
            }
            if n < c.len() {
                if let Some((a, b)) = c[n] {
                    out.extend(&t[a..b]);
                }
            }
            i = j + brace as usize;
        }
    }

    fn replace_n<'a>(&self, s: &'a str, rep: &str, limit: usize) -> Cow<'a, str> {
        let t: Vec<char> = s.chars().collect();
        let (mut out, mut i, mut n) = (String::new(), 0, 0);
        while n < limit {
            match self.find_at(&t, i) {
                Some(c) => {
                    let (a, e) = c[0].unwrap();
                    out.extend(&t[i..a]);
                    Self::expand(&mut out, rep, &t, &c);
                    n += 1;
                    if e == a {
                        if a == t.len() {
                            return Cow::Owned(out);
                        }
                        out.push(t[a]);
                        i = a + 1;
                    } else {
                        i = e;
                    }
                }
                None => break,
            }
        }
        if n == 0 {
            return Cow::Borrowed(s);
        }
        out.extend(&t[i..]);
        Cow::Owned(out)
    }

    pub fn is_match(&self, s: &str) -> bool {
        let t: Vec<char> = s.chars().collect();
        self.find_at(&t, 0).is_some()
    }

    pub fn replace<'a>(&self, s: &'a str, rep: &str) -> Cow<'a, str> {
        self.replace_n(s, rep, 1)
    }

    pub fn replace_all<'a>(&self, s: &'a str, rep: &str) -> Cow<'a, str> {
        self.replace_n(s, rep, usize::MAX)
    }
}
