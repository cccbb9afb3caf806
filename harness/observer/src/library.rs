//! Observer of the library interface: what a program that embeds `seam` sees
//! of trees, searches, writers and declared macro arguments.
mod common;
use common::*;

// `arguments!` refers to `crate::parse`, as if used inside of the library.
pub use seam::parse;

use parse::expander::ExpansionError;
use parse::lexer::Lexer;
use parse::macros::{Arg, ArgMatcher, ArgPos, ArgPredicate, ArgRules, ArgType};
use parse::parser::{IntoValue, Node, ParseNode, ParseTree, Parser, SearchTree, SearchType};
use parse::tokens::Site;
use seam_argparse_proc_macro::arguments;

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::io;

fn hash(node: &ParseNode) -> u64 {
    let mut h = DefaultHasher::new();
    node.hash(&mut h);
    h.finish()
}

/// Every node of a tree, each before what it holds.
fn every<'n, 'a>(nodes: &'n [ParseNode<'a>], into: &mut Vec<&'n ParseNode<'a>>) {
    for n in nodes {
        into.push(n);
        match n {
            ParseNode::List { nodes, .. } => every(nodes, into),
            ParseNode::Attribute { node, .. } => every(std::slice::from_ref(&**node), into),
            _ => {}
        }
    }
}

fn list<T>(items: &[T], out: &mut String, f: impl Fn(&T, &mut String)) {
    out.push('[');
    for (i, x) in items.iter().enumerate() {
        if i > 0 { out.push(','); }
        f(x, out);
    }
    out.push(']');
}

fn opt(s: Option<&str>, out: &mut String) {
    match s { Some(s) => js(s, out), None => out.push_str("null") }
}

/// What the accessors of one node say.
fn node_facts(n: &ParseNode, out: &mut String) {
    let value = |x: Option<&Node>| x.map(|x| x.value.clone());
    out.push_str("{\"type\":"); js(n.node_type(), out);
    let _ = write!(out, ",\"null\":{},\"is\":[{},{},{},{},{},{},{}]", n.null(), n.is_symbolic(), n.is_atomic(), n.is_symbol(), n.is_number(),
        n.is_string(), n.is_list(), n.is_attribute());
    out.push_str(",\"as\":[");
    for (i, v) in [value(n.symbolic()), value(n.atomic()), value(n.symbol()), value(n.number()), value(n.string()), n.clone().into_atomic().map(|n| n.value),
                   Node::try_from(n.clone()).ok().map(|n| n.value)].iter().enumerate() {
        if i > 0 { out.push(','); }
        opt(v.as_deref(), out);
    }
    out.push_str("],\"list\":");
    match n.list() { Some(l) => tree_json(l, false, out), None => out.push_str("null") }
    out.push_str(",\"boxed\":");
    match <Box<[ParseNode]>>::try_from(n.clone()) { Ok(l) => tree_json(&l, false, out), Err(()) => out.push_str("null") }
    out.push_str(",\"vec\":");
    match <Vec<ParseNode>>::try_from(n.clone()) { Ok(l) => tree_json(&l, false, out), Err(()) => out.push_str("null") }
    out.push_str(",\"attribute\":");
    match n.attribute() {
        Some((k, v)) => { out.push('['); js(k, out); out.push(','); node_json(v, false, out); out.push(']'); }
        None => out.push_str("null"),
    }
    out.push_str(",\"ws\":"); js(n.leading_whitespace(), out);
    out.push_str(",\"site\":"); site_json(n.site(), out);
    out.push_str(",\"owned\":"); site_json(&n.owned_site(), out);
    let int = |x: Option<String>, out: &mut String| { out.push(','); opt(x.as_deref(), out); };
    let s: Option<&str> = n.into_value();
    out.push_str(",\"values\":["); opt(s, out);
    int(IntoValue::<u32>::into_value(n).map(|x: u32| x.to_string()), out);
    int(IntoValue::<i32>::into_value(n).map(|x: i32| x.to_string()), out);
    int(IntoValue::<u64>::into_value(n).map(|x: u64| x.to_string()), out);
    int(IntoValue::<i64>::into_value(n).map(|x: i64| x.to_string()), out);
    int(IntoValue::<usize>::into_value(n).map(|x: usize| x.to_string()), out);
    int(IntoValue::<isize>::into_value(n).map(|x: isize| x.to_string()), out);
    int(IntoValue::<f64>::into_value(n).map(|x: f64| x.to_bits().to_string()), out);
    out.push_str("],\"extracts\":"); extracts(n, out);
    out.push_str(",\"display\":"); js(&n.to_string(), out);
    let mut m = n.clone();
    m.set_leading_whitespace(String::from("\t~"));
    out.push_str(",\"respaced\":"); node_json(&m, false, out);
    let _ = write!(out, ",\"same_after\":{}", m == *n && hash(&m) == hash(n));
    out.push('}');
}

/// What each of the `extract_*` functions makes of a node, moved and not.
fn extracts(n: &ParseNode, out: &mut String) {
    fn told<T>(r: Result<T, ExpansionError>, out: &mut String, f: impl FnOnce(T, &mut String)) {
        match r {
            Ok(x) => { out.push_str("[\"ok\","); f(x, out); }
            Err(ExpansionError(m, site)) => { out.push_str("[\"err\","); js(&m, out); out.push(','); site_json(&site, out); }
        }
        out.push_str("],");
    }
    out.push('[');
    macro_rules! atoms {
        ($($f:ident $g:ident),*) => {$(
            told(parse::macros::$f(n.clone()), out, |x, out| js(&x.value, out));
            told(parse::macros::$g(n), out, |x, out| js(&x.value, out));
        )*}
    }
    atoms!(extract_literal extract_literal_ref, extract_string extract_string_ref, extract_symbol extract_symbol_ref, extract_number extract_number_ref, extract_symbolic extract_symbolic_ref);
    told(parse::macros::extract_list(n.clone()), out, |x, out| tree_json(&x, false, out));
    told(parse::macros::extract_list_ref(n), out, |x, out| list(&x, out, |n, out| node_json(n, false, out)));
    told(parse::macros::extract_any(n.clone()), out, |x, out| node_json(&x, false, out));
    told(parse::macros::extract_any_ref(n), out, |x, out| node_json(x, false, out));
    out.pop();
    out.push(']');
}

fn with_tree(req: &Request, out: &mut String, f: impl Fn(&ParseTree, &mut String)) {
    if req.flag("expand") {
        let b = seam::tree_builder(Option::<&str>::None, req.text("src").unwrap());
        match b.expand() {
            Ok(t) => f(&t, out),
            Err(e) => { out.push_str("{\"err\":"); js(&e.to_string(), out); out.push('}'); }
        };
    } else {
        let parser = Parser::new(Lexer::new(String::from("<stdin>"), req.text("src").unwrap()));
        match parser.parse() {
            Ok(t) => f(&t, out),
            Err(e) => { out.push_str("{\"err\":"); js(&e.to_string(), out); out.push('}'); }
        };
    }
}

fn op_tree(req: &Request, out: &mut String) {
    with_tree(req, out, |tree, out| {
        let mut all = vec![];
        every(tree, &mut all);
        out.push_str("{\"tree\":"); tree_json(tree, true, out);
        out.push_str(",\"facts\":");
        list(&all, out, |n, out| node_facts(n, out));
        // Equality of the first nodes with each other, and whether equal ones hash alike.
        out.push_str(",\"equal\":[");
        let some = &all[..all.len().min(40)];
        let mut first = true;
        let mut unhashed = 0;
        for (i, a) in some.iter().enumerate() {
            for (j, b) in some.iter().enumerate() {
                if *a == *b {
                    if i != j {
                        if !first { out.push(','); }
                        first = false;
                        let _ = write!(out, "[{},{}]", i, j);
                    }
                    if hash(a) != hash(b) { unhashed += 1; }
                } else if i == j {
                    unhashed += 1000;
                }
            }
        }
        let _ = write!(out, "],\"unhashed\":{}", unhashed);
        out.push('}');
    });
}

/// Expressions taken one at a time.
fn op_steps(req: &Request, out: &mut String) {
    let src = req.text("src").unwrap();
    let lexer = Lexer::new(String::from("<stdin>"), src.clone());
    let parser = Parser::new(lexer.clone());
    let again = parser.clone();
    out.push_str("{\"source\":"); js(parser.get_source(), out);
    // How many expressions there are is known from a parse of the same text.
    let n = req.text("count").unwrap().parse::<usize>().unwrap();
    out.push_str(",\"steps\":[");
    for i in 0..n {
        if i > 0 { out.push(','); }
        match parser.parse_expr() {
            Ok(t) => node_json(&t, true, out),
            Err(e) => { out.push_str("{\"err\":"); js(&e.to_string(), out); out.push('}'); }
        }
    }
    out.push_str("],\"rest\":");
    match parser.parse() { Ok(t) => { let _ = write!(out, "{}", t.len()); } Err(e) => js(&e.to_string(), out) }
    out.push_str(",\"again\":");
    match again.parse() { Ok(t) => tree_json(&t, true, out), Err(e) => js(&e.to_string(), out) }
    out.push('}');
}

fn token(t: Result<parse::tokens::Token, parse::lexer::LexError>, out: &mut String) {
    match t {
        Ok(t) => {
            out.push('[');
            js(&format!("{:?}", t.kind), out);
            for x in [t.value, t.leading_whitespace, t.site.view(), &t.site.to_string(), &t.site.uuid()] { out.push(','); js(x, out); }
            out.push(',');
            site_json(&t.site, out);
            out.push(']');
        }
        Err(e) => { out.push_str("{\"err\":"); js(&e.to_string(), out); out.push('}'); }
    }
}

/// All tokens of a text in order; up to an error.
fn tokens(lexer: &Lexer, out: &mut String) {
    out.push('[');
    let mut first = true;
    while !lexer.eof() {
        if !first { out.push(','); }
        first = false;
        let t = lexer.consume();
        let stop = t.is_err();
        token(t, out);
        if stop { break; }
    }
    out.push(']');
}

/// Tokens taken with looking ahead, going back, and copies of the lexer in between.
fn op_walk(req: &Request, out: &mut String) {
    let src = req.text("src").unwrap();
    out.push_str("{\"plain\":");
    tokens(&Lexer::new(String::from("<stdin>"), src.clone()), out);
    let mut lexer: &'static Lexer = Box::leak(Box::new(Lexer::new(String::from("<stdin>"), src)));
    out.push_str(",\"walk\":[");
    for (i, m) in req.text("moves").unwrap().chars().enumerate() {
        if i > 0 { out.push(','); }
        let end = lexer.eof();
        let _ = write!(out, "[\"{}\",{},", m, end);
        match m {
            'c' if !end => token(lexer.consume(), out),
            'p' if !end => token(lexer.peek(), out),
            'k' => { lexer = Box::leak(Box::new(lexer.clone())); out.push_str("null"); }
            d if d.is_ascii_digit() => {
                let n = d.to_digit(10).unwrap();
                let got = lexer.restore(|l| {
                    let mut s = String::from("[");
                    for k in 0..n {
                        if l.eof() { break; }
                        if k > 0 { s.push(','); }
                        let t = l.consume();
                        let stop = t.is_err();
                        token(t, &mut s);
                        if stop { break; }
                    }
                    s + "]"
                });
                out.push_str(&got);
            }
            _ => out.push_str("null"),
        }
        out.push(']');
    }
    out.push_str("]}");
}

/// A parsed text expanded by an expander made for another one, at once and node by node.
fn op_nodes(req: &Request, out: &mut String) {
    let parser = Parser::new(Lexer::new(String::from("<stdin>"), req.text("src").unwrap()));
    let tree = match parser.parse() {
        Ok(t) => t,
        Err(e) => { out.push_str("{\"err\":"); js(&e.to_string(), out); out.push('}'); return; }
    };
    let show = |r: Result<ParseTree, ExpansionError>, out: &mut String| match r {
        Ok(t) => tree_json(&t, true, out),
        Err(e) => { out.push_str("{\"err\":"); js(&e.to_string(), out); out.push('}'); }
    };
    let b = parse::expander::Expander::new(Parser::new(Lexer::new(String::from("elsewhere"), String::from("(other text)"))));
    out.push_str("{\"source\":"); js(b.get_source(), out);
    out.push_str(",\"nodes\":");
    show(b.expand_nodes(tree.clone()), out);
    let b = parse::expander::Expander::new(Parser::new(Lexer::new(String::from("elsewhere"), String::new())));
    out.push_str(",\"each\":");
    let mut all = vec![];
    let mut bad = None;
    for n in tree.iter() {
        match b.expand_node(n.clone()) {
            Ok(t) => all.extend(t.into_vec()),
            Err(e) => { bad = Some(e); break; }
        }
    }
    show(match bad { Some(e) => Err(e), None => Ok(all.into_boxed_slice()) }, out);
    out.push('}');
}

fn op_search(req: &Request, out: &mut String) {
    let kind = match req.text("kind").as_deref() {
        Some("head") => SearchType::ListHead,
        Some("symbol") => SearchType::Symbol, Some("number") => SearchType::Number,
        Some("string") => SearchType::String, Some("attr") => SearchType::Attribute,
        _ => SearchType::Any,
    };
    let level: usize = req.text("level").unwrap().parse().unwrap();
    let value = req.text("value").unwrap();
    with_tree(req, out, |t, out| {
        out.push_str("{\"found\":");
        match t.search_node(kind, &value, req.flag("insensitive"), level) {
            Some(n) => node_json(n, true, out),
            None => out.push_str("null"),
        }
        // And from every node alone.
        let mut all = vec![];
        every(t, &mut all);
        out.push_str(",\"from\":");
        list(&all[..all.len().min(12)], out, |n, out| match n.search_node(kind, &value, req.flag("insensitive"), level) {
            Some(n) => node_json(n, true, out),
            None => out.push_str("null"),
        });
        out.push('}');
    });
}

/// A writer that takes so many bytes and then fails: from there on, or once.
struct Full { room: usize, once: bool, text: String }
impl fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.room {
            if self.once { self.room = usize::MAX; }
            return Err(fmt::Error);
        }
        if self.room == usize::MAX {
            self.text.push_str(s);
            return Ok(());
        }
        self.room -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

fn op_write(req: &Request, out: &mut String) {
    let name = req.text("fmt").unwrap();
    let cut: usize = req.text("room").unwrap().parse().unwrap();
    with_tree(req, out, |tree, out| {
        let f = formatter(&name, tree.clone());
        let shown = f.display().map_err(|e| e.to_string());
        out.push_str("{\"display\":");
        outcome(shown.clone(), out);
        let mut full = Full { room: cut, once: req.flag("once"), text: String::new() };
        out.push_str(",\"cut\":");
        outcome(f.generate(&mut full).map(|_| String::new()).map_err(|e| e.to_string()), out);
        out.push_str(",\"written\":"); js(&full.text, out);
        let mut onto = String::from("before|");
        out.push_str(",\"append\":");
        let r = f.generate(&mut onto).map(|_| onto.clone()).map_err(|e| e.to_string());
        outcome(r, out);
        out.push_str(",\"cloned\":");
        outcome(f.clone_formatter().display().map_err(|e| e.to_string()), out);
        out.push_str(",\"again\":");
        outcome(f.display().map_err(|e| e.to_string()), out);
        out.push('}');
    });
}

/// The `Display` of a formatter, which there is only for trees that live forever.
fn op_shown(req: &Request, out: &mut String) {
    let b: &'static _ = Box::leak(Box::new(seam::tree_builder(Option::<&str>::None, req.text("src").unwrap())));
    match b.expand() {
        Ok(t) => {
            let f = formatter(&req.text("fmt").unwrap(), t);
            out.push_str("{\"display\":");
            outcome(f.display().map_err(|e| e.to_string()), out);
            let mut s = String::new();
            out.push_str(",\"shown\":");
            let r = write!(s, "{}", f).map(|_| s).map_err(|_| String::from("fmt::Error"));
            outcome(r, out);
            out.push('}');
        }
        Err(e) => { out.push_str("{\"err\":"); js(&e.to_string(), out); out.push('}'); }
    };
}

/// A reader that gives its bytes in pieces, with interruptions, and may end in a failure.
struct Pieces { data: Vec<u8>, at: usize, step: usize, interrupt: bool, fail: bool, turn: usize }
impl io::Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.turn += 1;
        if self.interrupt && self.turn % 2 == 0 { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        if self.at == self.data.len() && self.fail { return Err(io::Error::new(io::ErrorKind::Other, "reader failed")); }
        let n = self.step.min(buf.len()).min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn op_stream(req: &Request, out: &mut String) {
    let mut r = Pieces { data: req.get("src").unwrap().to_vec(), at: 0, step: req.text("step").unwrap().parse().unwrap(),
        interrupt: req.flag("interrupt"), fail: req.flag("fail"), turn: 0 };
    match seam::tree_builder_stream(&mut r) {
        Ok(b) => {
            let name = b.get_source().to_owned();
            out.push_str("{\"name\":"); js(&name, out);
            match b.expand() {
                Ok(t) => { out.push_str(",\"tree\":"); tree_json(&t, true, out); }
                Err(e) => { out.push_str(",\"err\":"); js(&e.to_string(), out); }
            }
            out.push('}');
        }
        Err(e) => { out.push_str("{\"ioerr\":"); js(&e.to_string(), out); out.push('}'); }
    };
}

/* Declared arguments. */

fn even<'tree>(n: &ParseNode<'tree>) -> Result<(), ExpansionError<'tree>> {
    match n.atomic() {
        Some(node) if node.value.chars().count() % 2 == 0 => Ok(()),
        _ => Err(ExpansionError::new("not even", n.site())),
    }
}

fn short<'tree>(n: &ParseNode<'tree>) -> Result<(), ExpansionError<'tree>> {
    let len = match n {
        ParseNode::List { nodes, .. } => nodes.len(),
        ParseNode::Attribute { keyword, .. } => keyword.len(),
        n => n.atomic().unwrap().value.len(),
    };
    if len < 3 { Ok(()) } else { Err(ExpansionError::new("not short", n.site())) }
}

/// `number`, `list(symbol,any)`, with predicates after `|`: `literal|=a|~^b|?even`.
fn arg_type<'tree>(s: &mut &str) -> ArgType<'tree> {
    let end = s.find(|c: char| !c.is_ascii_alphabetic()).unwrap_or(s.len());
    let (word, rest) = s.split_at(end);
    *s = rest;
    if word == "list" {
        let mut types = vec![];
        if let Some(rest) = s.strip_prefix('(') {
            *s = rest;
            loop {
                types.push(arg_type(s));
                let c = s.chars().next().unwrap();
                *s = &s[1..];
                if c == ')' { break; }
            }
        }
        return ArgType::List(types);
    }
    let mut preds = vec![];
    while let Some(rest) = s.strip_prefix('|') {
        let end = rest.find(['|', ',', ')']).unwrap_or(rest.len());
        let (p, after) = rest.split_at(end);
        *s = after;
        preds.push(match p.split_at(1) {
            ("=", v) => ArgPredicate::Exactly(v.to_owned()),
            ("~", v) => ArgPredicate::Matching(regex::Regex::new(v).unwrap()),
            ("?", "even") => ArgPredicate::Satisfying(even),
            ("?", "short") => ArgPredicate::Satisfying(short),
            _ => panic!("observer: predicate {}", p),
        });
    }
    match word {
        "literal" => ArgType::Literal(preds), "string" => ArgType::String(preds), "symbol" => ArgType::Symbol(preds),
        "number" => ArgType::Number(preds), "symbolic" => ArgType::Symbolic(preds), "any" => ArgType::Any(preds),
        _ => panic!("observer: type {}", word),
    }
}

enum Place { Range(usize, usize), Names(Vec<String>) }
thread_local! { static PLACES: RefCell<Vec<Place>> = const { RefCell::new(vec![]) }; }

fn at<const I: usize>(m: &Box<dyn ArgMatcher + '_>) -> bool {
    PLACES.with(|p| match (&p.borrow()[I], m.unwrap()) {
        (Place::Range(a, b), ArgPos::Int(i)) => *a <= i && i <= *b,
        (Place::Names(n), ArgPos::Str(k)) => n.iter().any(|n| n == k),
        _ => false,
    })
}

fn refused(e: ExpansionError, out: &mut String) {
    out.push_str("{\"err\":[");
    js(&e.0, out);
    out.push(',');
    site_json(&e.1, out);
    out.push_str("]}");
}

/// The arguments of the first list of the document, by rules made at run time.
fn op_rules(req: &Request, out: &mut String) {
    let b = seam::tree_builder(Option::<&str>::None, req.text("src").unwrap());
    let t = match b.expand() {
        Ok(t) => t,
        Err(e) => { out.push_str("{\"expansion\":"); js(&e.to_string(), out); out.push('}'); return; }
    };
    let call = &t[0];
    let params: ParseTree = call.list().unwrap()[1..].to_vec().into_boxed_slice();
    let mut places = vec![];
    let mut rules = ArgRules::new();
    let mut mandatory: Vec<Result<usize, String>> = vec![];
    let mut optional: Vec<Result<usize, String>> = vec![];
    let mut declared = 0;
    for r in req.all("rule") {
        let mut parts = r.splitn(3, ' ');
        let (how, place, typ) = (parts.next().unwrap(), parts.next().unwrap(), parts.next().unwrap());
        let typ = arg_type(&mut &*typ);
        if how == "rest" { rules.register_remaining(typ); continue; }
        let i = places.len();
        let keys = if how == "m" { declared += 1; &mut mandatory } else { &mut optional };
        if let Some((a, b)) = place.split_once('-').filter(|(a, _)| a.parse::<usize>().is_ok()) {
            let (a, b) = (a.parse().unwrap(), b.parse().unwrap());
            keys.extend((a..=b).map(Ok));
            places.push(Place::Range(a, b));
        } else {
            let names: Vec<String> = place.split(',').map(String::from).collect();
            keys.extend(names.iter().cloned().map(Err));
            places.push(Place::Names(names));
        }
        let f: fn(&Box<dyn ArgMatcher + '_>) -> bool = match i {
            0 => at::<0>, 1 => at::<1>, 2 => at::<2>, 3 => at::<3>, 4 => at::<4>, 5 => at::<5>, 6 => at::<6>, 7 => at::<7>, 8 => at::<8>,
            _ => panic!("observer: too many rules"),
        };
        rules.register(f, if how == "m" { Arg::Mandatory(typ) } else { Arg::Optional(typ) });
    }
    PLACES.with(|p| *p.borrow_mut() = places);
    let counted = rules.count_mandatory();
    assert_eq!(counted, declared, "observer: count_mandatory");
    let parser = match rules.clone().parser(call, &params) {
        Ok(p) => p,
        Err(e) => return refused(e, out),
    };
    // Every mandatory argument must now be there.
    for k in &mandatory {
        let got = match k { Ok(i) => parser.get(*i), Err(n) => parser.get(n.as_str()) };
        if let Err(e) = got { return refused(e, out); }
    }
    for k in mandatory.iter().chain(&optional) {
        let same = match k {
            Ok(i) => parser.get(*i).ok() == parser.get_optional(*i),
            Err(n) => parser.get(n.as_str()).ok() == parser.get_optional(n.as_str()) && parser.get_optional(n).is_some() == parser.named.contains_key(n),
        };
        assert!(same, "observer: get and get_optional differ");
    }
    assert!(parser.get(999usize).is_err() && parser.get_optional(999usize).is_none() && parser.get("no such").is_err() && parser.get_optional("no such").is_none());
    assert!(std::ptr::eq(parser.call_node, call));
    let mut pos: Vec<_> = parser.positional.iter().collect();
    pos.sort_by_key(|(i, _)| **i);
    let mut named: Vec<_> = parser.named.iter().collect();
    named.sort_by_key(|(k, _)| k.to_string());
    out.push_str("{\"pos\":");
    list(&pos, out, |(i, n), out| { let _ = write!(out, "[{},", i); node_json(n, true, out); out.push(']'); });
    out.push_str(",\"named\":");
    list(&named, out, |(k, n), out| { out.push('['); js(k, out); out.push(','); node_json(n, true, out); out.push(']'); });
    out.push_str(",\"rest\":");
    list(&parser.trailing, out, |n, out| node_json(n, true, out));
    out.push('}');
}

trait Show { fn show(&self, out: &mut String); }
impl<'a> Show for Node<'a> {
    fn show(&self, out: &mut String) { out.push_str("{\"node\":"); js(&self.value, out); out.push_str(",\"site\":"); site_json(&self.site, out); out.push('}'); }
}
impl<'a> Show for ParseNode<'a> { fn show(&self, out: &mut String) { node_json(self, true, out) } }
impl<'a> Show for Vec<ParseNode<'a>> { fn show(&self, out: &mut String) { out.push_str("{\"list\":"); tree_json(self, true, out); out.push('}'); } }
impl<T: Show> Show for Option<T> { fn show(&self, out: &mut String) { match self { Some(x) => x.show(out), None => out.push_str("null") } } }
impl Show for () { fn show(&self, out: &mut String) { out.push_str("\"none\"") } }

macro_rules! show {
    ($out:ident, $args:ident; [$($n:tt)*] [$($k:ident)*] $rest:expr) => {{
        $out.push_str("{\"pos\":[");
        let mut _first = true;
        $( if !_first { $out.push(','); } _first = false; $args.number.$n.show($out); )*
        $out.push_str("],\"named\":{");
        let mut _first = true;
        $( if !_first { $out.push(','); } _first = false; js(stringify!($k), $out); $out.push(':'); $args.$k.show($out); )*
        $out.push_str("},\"rest\":");
        $rest;
        $out.push('}');
        Ok(())
    }};
}

macro_rules! rest { ($out:ident, $args:ident) => { list(&$args.rest, $out, |n, out| n.show(out)) }; }

/// Declarations written with `arguments!`, by number.
fn declared<'a>(set: usize, node: &ParseNode<'a>, params: ParseTree<'a>, out: &mut String) -> Result<(), ExpansionError<'a>> {
    match set {
        #[cfg(feature = "s0")]
        0 => { let (_p, a) = arguments! { [&params] mandatory(1): number, mandatory(2): symbol }?; show!(out, a; [1 2] [] out.push_str("null")) }
        #[cfg(feature = "s1")]
        1 => { let (_p, a) = arguments! { [&params] mandatory(1..=3): literal, optional("k"): any, }?; show!(out, a; [1 2 3] [k] out.push_str("null")) }
        #[cfg(feature = "s2")]
        2 => { let (_p, a) = arguments! { [&params] mandatory(1): list, optional(2): list, rest: any }?; show!(out, a; [1 2] [] rest!(out, a)) }
        #[cfg(feature = "s3")]
        3 => { let (_p, a) = arguments! { [&params] mandatory(1 | 3): symbolic, mandatory(2): string, optional(4..6): any }?; show!(out, a; [1 2 3 4 5] [] out.push_str("null")) }
        #[cfg(feature = "s4")]
        4 => { let (_p, a) = arguments! { [&params] mandatory("a" | "b"): number, optional("c"): literal["x", "y z"], rest: number }?; show!(out, a; [] [a b c] rest!(out, a)) }
        #[cfg(feature = "s5")]
        5 => { let (_p, a) = arguments! { [&params] mandatory(1): list(ArgType::Symbol(vec![]), ArgType::Number(vec![]), ArgType::Any(vec![])), rest: list }?; show!(out, a; [1] [] rest!(out, a)) }
        #[cfg(feature = "s6")]
        6 => { let (_p, a) = arguments! { [&params] optional(1): string["s", "t"], optional(2): symbol["in", "on"], optional("type"): symbolic["1", "a"], optional("fn"): number["1", "2"] }?; show!(out, a; [1 2] [r#type r#fn] out.push_str("null")) }
        #[cfg(feature = "s7")]
        7 => { let (_p, a) = arguments! { [&params] rest: symbolic }?; show!(out, a; [] [] rest!(out, a)) }
        #[cfg(feature = "s8")]
        8 => { let (_p, a) = arguments! { [&params] mandatory("only"): list, mandatory(1): any, mandatory(2): any["q"] }?; show!(out, a; [1 2] [only] out.push_str("null")) }
        #[cfg(feature = "s9")]
        9 => { let (_p, a) = arguments! { [&params] mandatory(1): literal[ArgPredicate::Satisfying(even), "odd"], optional("m"): string[ArgPredicate::Matching(regex::Regex::new("^[a-c]+$").unwrap())], rest: string }?; show!(out, a; [1] [m] rest!(out, a)) }
        #[cfg(feature = "s10")]
        10 => { let (_p, a) = arguments! { [&params] mandatory(1): number fn(n: &ParseNode<'tree>) { even(n) }, optional(2): any fn(n: &ParseNode<'tree>) { let ok = short(n); ok }, rest: literal }?; show!(out, a; [1 2] [] rest!(out, a)) }
        _ => panic!("observer: set"),
    }
}

fn op_declared(req: &Request, out: &mut String) {
    let b = seam::tree_builder(Option::<&str>::None, req.text("src").unwrap());
    let t = match b.expand() {
        Ok(t) => t,
        Err(e) => { out.push_str("{\"expansion\":"); js(&e.to_string(), out); out.push('}'); return; }
    };
    let params: ParseTree = t[0].list().unwrap()[1..].to_vec().into_boxed_slice();
    let mut piece = String::new();
    match declared(req.text("set").unwrap().parse().unwrap(), &t[0], params, &mut piece) {
        Ok(()) => out.push_str(&piece),
        Err(e) => refused(e, out),
    };
}

fn handle(op: &str, req: &Request, out: &mut String) {
    match op {
        "tree" => op_tree(req, out),
        "steps" => op_steps(req, out),
        "walk" => op_walk(req, out),
        "nodes" => op_nodes(req, out),
        "search" => op_search(req, out),
        "write" => op_write(req, out),
        "shown" => op_shown(req, out),
        "stream" => op_stream(req, out),
        "rules" => op_rules(req, out),
        "declared" => op_declared(req, out),
        other => panic!("observer: bad op {:?}", other),
    }
}

fn main() {
    let _ = Site::unknown();
    common::run(handle)
}
