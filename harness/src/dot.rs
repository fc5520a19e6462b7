//! A reader for the DOT language, as far as graphs, nodes, edges and attributes go.
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    P(char),
    Arrow,
    Line,
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let mut bol = true;
    while i < c.len() {
        let x = c[i];
        if x == '\n' {
            bol = true;
            i += 1;
            continue;
        }
        if bol && x == '#' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if x.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        bol = false;
        let next = c.get(i + 1).copied();
        if x == '/' && next == Some('/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && next == Some('*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            if i + 1 >= c.len() {
                return Err("unterminated comment".into());
            }
            i += 2;
        } else if x == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("unterminated string".into()),
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some('\\') => match c.get(i + 1) {
                        Some('"') => {
                            t.push('"');
                            i += 2;
                        }
                        Some('\\') => {
                            t.push_str("\\\\");
                            i += 2;
                        }
                        Some('\n') => i += 2,
                        Some(y) => {
                            t.push('\\');
                            t.push(*y);
                            i += 2;
                        }
                        None => return Err("unterminated string".into()),
                    },
                    Some(y) => {
                        t.push(*y);
                        i += 1;
                    }
                }
            }
            out.push(Tok::Id(t));
        } else if x.is_ascii_alphabetic() || x == '_' || !x.is_ascii() {
            let b = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || !c[i].is_ascii()) {
                i += 1;
            }
            out.push(Tok::Id(c[b..i].iter().collect()));
        } else if x.is_ascii_digit() || x == '.' || (x == '-' && next.map_or(false, |n| n.is_ascii_digit() || n == '.')) {
            let b = i;
            i += 1;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                i += 1;
            }
            out.push(Tok::Id(c[b..i].iter().collect()));
        } else if x == '-' && next == Some('>') {
            out.push(Tok::Arrow);
            i += 2;
        } else if x == '-' && next == Some('-') {
            out.push(Tok::Line);
            i += 2;
        } else if "{}[]=;,:".contains(x) {
            out.push(Tok::P(x));
            i += 1;
        } else {
            return Err(format!("unexpected character {:?}", x));
        }
    }
    Ok(out)
}

#[derive(Default, Debug)]
pub struct Graph {
    pub strict: bool,
    pub directed: bool,
    pub nodes: BTreeMap<String, BTreeMap<String, String>>,
    pub edges: BTreeMap<(String, String), BTreeMap<String, String>>,
    /// Number of edge statements (a strict graph merges equal ones).
    pub edge_stmts: usize,
}

struct P {
    t: Vec<Tok>,
    i: usize,
}

impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn id(&mut self) -> Result<String, String> {
        match self.t.get(self.i) {
            Some(Tok::Id(s)) => {
                self.i += 1;
                Ok(s.clone())
            }
            x => Err(format!("an ID expected, found {:?}", x)),
        }
    }
    fn attrs(&mut self) -> Result<BTreeMap<String, String>, String> {
        let mut m = BTreeMap::new();
        while self.eat('[') {
            while !self.eat(']') {
                let k = self.id()?;
                if !self.eat('=') {
                    return Err(format!("no '=' after the attribute {:?}", k));
                }
                let v = self.id()?;
                m.insert(k, v);
                let _ = self.eat(',') || self.eat(';');
            }
        }
        Ok(m)
    }
}

pub fn parse(s: &str) -> Result<Graph, String> {
    let mut p = P { t: lex(s)?, i: 0 };
    let mut g = Graph::default();
    let mut k = p.id()?;
    if k.eq_ignore_ascii_case("strict") {
        g.strict = true;
        k = p.id()?;
    }
    match k.to_ascii_lowercase().as_str() {
        "digraph" => g.directed = true,
        "graph" => {}
        _ => return Err(format!("not a graph: {:?}", k)),
    }
    if let Some(Tok::Id(_)) = p.peek() {
        p.i += 1;
    }
    if !p.eat('{') {
        return Err("'{' expected".into());
    }
    while !p.eat('}') {
        if p.eat(';') {
            continue;
        }
        if p.peek().is_none() {
            return Err("the graph is not closed".into());
        }
        let a = p.id()?;
        let low = a.to_ascii_lowercase();
        if ["graph", "node", "edge"].contains(&low.as_str()) && p.peek() == Some(&Tok::P('[')) {
            p.attrs()?;
            continue;
        }
        if p.eat('=') {
            p.id()?;
            continue;
        }
        match p.peek() {
            Some(Tok::Arrow) => {
                let mut chain = vec![a];
                while p.peek() == Some(&Tok::Arrow) {
                    p.i += 1;
                    chain.push(p.id()?);
                }
                let at = p.attrs()?;
                for w in chain.windows(2) {
                    g.edge_stmts += 1;
                    for n in w {
                        g.nodes.entry(n.clone()).or_default();
                    }
                    g.edges.entry((w[0].clone(), w[1].clone())).or_default().extend(at.clone());
                }
            }
            Some(Tok::Line) => return Err("undirected edge in a digraph".into()),
            Some(Tok::P(':')) => return Err("unexpected port".into()),
            _ => {
                let at = p.attrs()?;
                g.nodes.entry(a).or_default().extend(at);
            }
        }
    }
    if p.i != p.t.len() {
        return Err(format!("text after the end of the graph: {:?}", &p.t[p.i..p.t.len().min(p.i + 4)]));
    }
    Ok(g)
}

/// The text that a label (an escString) shows.
pub fn label_text(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') | Some('l') | Some('r') => o.push('\n'),
            Some(x) if "NGETHL".contains(x) => return Err(format!("the label contains the substitution \\{}", x)),
            Some(x) => o.push(x),
            None => return Err("the label ends in a backslash".into()),
        }
    }
    Ok(o)
}
