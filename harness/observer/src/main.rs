//! Observer: links the real `seam` library and reports, for each request read
//! on stdin, what the library did: the tokens, the tree, the output of each
//! formatter, the diagnostics, and any panic. It decides nothing; the oracles
//! live in /verif/mon.
//!
//! Framing: every message is `u32 length (LE)` + payload.  A request payload
//! is a sequence of `u32 klen, key, u32 vlen, value` pairs; a response payload
//! is JSON.
mod common;
use common::*;
use seam::assemble::{self, MarkupFormatter};
use seam::parse::expander::Expander;
use seam::parse::lexer::Lexer;
use seam::parse::parser::{ParseNode, ParseTree, Parser, SearchTree, SearchType};
use seam::parse::tokens::Kind;

use std::io;
use std::panic;

/// Produce one output: `html`, `html!` (document), `html+` (clone, drop the
/// original, then use the clone), `html=` (document
/// after display on the same formatter).
fn produce<'a>(spec: &str, tree: ParseTree<'a>, out: &mut String) {
    let name = spec.trim_end_matches(['!', '+', '=']);
    let fmt = formatter(name, tree);
    if spec.ends_with('!') {
        outcome(fmt.document().map_err(|e| e.to_string()), out)
    } else if spec.ends_with('+') {
        let first = fmt.display().map_err(|e| e.to_string());
        let copy = fmt.clone();
        let second = copy.display().map_err(|e| e.to_string());
        drop(fmt);
        let third = copy.display().map_err(|e| e.to_string());
        if first == second && second == third {
            outcome(third, out)
        } else {
            out.push_str("{\"differs\":[");
            outcome(first, out); out.push(',');
            outcome(second, out); out.push(',');
            outcome(third, out);
            out.push_str("]}");
        }
    } else if spec.ends_with('=') {
        let _ = fmt.display().map_err(|e| e.to_string());
        outcome(fmt.document().map_err(|e| e.to_string()), out)
    } else {
        outcome(fmt.display().map_err(|e| e.to_string()), out)
    }
}

fn report<'a>(builder: &'a Expander<'a>, sites: bool, notree: bool, fmts: &[String], out: &mut String) {
    let mut tree: Option<ParseTree> = None;
    let mut head = String::new();
    // SAFETY of lifetimes: `builder` outlives everything here.
    let res = panic::catch_unwind(panic::AssertUnwindSafe(|| {
        match builder.expand() {
            Ok(t) => Ok(t),
            Err(e) => Err(e.to_string()),
        }
    }));
    match res {
        Ok(Ok(t)) => {
            if notree {
                head.push_str("\"tree\":null");
            } else {
                head.push_str("\"tree\":");
                tree_json(&t, sites, &mut head);
            }
            tree = Some(t);
        }
        Ok(Err(e)) => { head.push_str("\"err\":"); js(&e, &mut head); }
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take())
                .unwrap_or((String::from("?"), String::from("?")));
            head.push_str("\"panic\":[");
            js(&msg, &mut head); head.push(',');
            js(&loc, &mut head); head.push(']');
        }
    }
    out.push('{');
    out.push_str(&head);
    if let Some(tree) = tree {
        out.push_str(",\"out\":{");
        for (i, spec) in fmts.iter().enumerate() {
            if i > 0 { out.push(','); }
            js(spec, out);
            out.push(':');
            guarded(out, |out| {
                if spec == "display" {
                    let mut s = String::new();
                    for n in tree.iter() { s += &n.to_string(); }
                    outcome(Ok(s), out)
                } else {
                    produce(spec, tree.clone(), out)
                }
            });
        }
        out.push('}');
    }
    out.push('}');
}

fn op_run(req: &Request, out: &mut String) {
    let sites = req.flag("sites");
    let fmts = req.all("fmt");
    let incs = req.all("inc");
    match req.text("via").as_deref() {
        Some("file") => {
            let path = req.text("path").unwrap();
            match seam::tree_builder_file(std::path::Path::new(&path)) {
                Ok(mut b) => { b.add_includes(incs.iter()); report(&b, sites, req.flag("notree"), &fmts, out) }
                Err(e) => { out.push_str("{\"ioerr\":"); js(&e.to_string(), out); out.push('}'); }
            }
        }
        Some("stream") => {
            let src = req.get("src").unwrap().to_vec();
            let mut cur = io::Cursor::new(src);
            match seam::tree_builder_stream(&mut cur) {
                Ok(mut b) => { b.add_includes(incs.iter()); report(&b, sites, req.flag("notree"), &fmts, out) }
                Err(e) => { out.push_str("{\"ioerr\":"); js(&e.to_string(), out); out.push('}'); }
            };
        }
        _ => {
            let src = req.text("src").unwrap();
            let path = req.text("path");
            let mut b = seam::tree_builder(path.as_ref(), src);
            b.add_includes(incs.iter());
            if req.flag("reclone") {
                let c = b.clone();
                drop(b);
                report(&c, sites, req.flag("notree"), &fmts, out)
            } else {
                report(&b, sites, req.flag("notree"), &fmts, out)
            }
        }
    }
}

fn op_parse(req: &Request, out: &mut String) {
    let lexer = Lexer::new(req.text("path").unwrap_or(String::from("<parse>")), req.text("src").unwrap());
    let parser = Parser::new(lexer);
    out.push('{');
    match parser.parse() {
        Ok(t) => { out.push_str("\"tree\":"); tree_json(&t, req.flag("sites"), out); }
        Err(e) => { out.push_str("\"err\":"); js(&e.to_string(), out); }
    };
    out.push('}');
}

fn op_lex(req: &Request, out: &mut String) {
    let lexer = Lexer::new(req.text("path").unwrap_or(String::from("<lex>")), req.text("src").unwrap());
    out.push_str("{\"tokens\":[");
    let mut first = true;
    let mut err = None;
    while !lexer.eof() {
        // peek must agree with the consume that follows it.
        let peeked = lexer.peek().map(|t| (t.kind, t.value.to_owned(), t.leading_whitespace.to_owned(),
            t.site.line, t.site.bytes_from_start)).map_err(|e| e.to_string());
        match lexer.consume() {
            Ok(t) => {
                let same = peeked == Ok((t.kind, t.value.to_owned(), t.leading_whitespace.to_owned(),
                    t.site.line, t.site.bytes_from_start));
                if !first { out.push(','); }
                first = false;
                out.push_str("[\"");
                out.push_str(match t.kind {
                    Kind::LParen => "(", Kind::RParen => ")", Kind::Symbol => "y",
                    Kind::String => "s", Kind::Number => "n", Kind::Keyword => "k",
                });
                out.push_str("\",");
                js(t.value, out); out.push(',');
                js(t.leading_whitespace, out); out.push(',');
                site_json(&t.site, out);
                out.push(',');
                js(t.site.line_slice(), out);
                out.push_str(&format!(",{},", t.site.line_column()));
                js(t.site.view(), out);
                out.push_str(if same { ",true]" } else { ",false]" });
            }
            Err(e) => { err = Some(e.to_string()); break; }
        }
    }
    out.push(']');
    if let Some(e) = err { out.push_str(",\"err\":"); js(&e, out); }
    out.push('}');
}

fn op_threads(req: &Request, out: &mut String) {
    // Process each document in its own thread, concurrently.
    let srcs = req.all("src");
    let fmts = req.all("fmt");
    let incs = req.all("inc");
    let handles: Vec<_> = srcs.into_iter().map(|src| {
        let (fmts, incs) = (fmts.clone(), incs.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut piece = String::new();
            guarded(&mut piece, |out| {
                let mut b = seam::tree_builder(Option::<&str>::None, src);
                b.add_includes(incs.iter());
                report(&b, false, true, &fmts, out);
            });
            piece
        }).unwrap()
    }).collect();
    out.push_str("{\"docs\":[");
    for (i, h) in handles.into_iter().enumerate() {
        if i > 0 { out.push(','); }
        out.push_str(&h.join().unwrap_or(String::from("{\"panic\":[\"thread\",\"\"]}")));
    }
    out.push_str("]}");
}

struct XorShift(u64);
impl XorShift {
    fn next(&mut self) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) as usize
    }
    fn below(&mut self, n: usize) -> usize { self.next() % n }
}

/// A random history of library calls over several documents in one go:
/// builders, trees, errors and formatters are created, cloned, used and
/// dropped in arbitrary order.  Every use of the same document and format
/// must give the same result; the first results and all differences are
/// reported.
fn op_life(req: &Request, out: &mut String) {
    let srcs = req.all("src");
    let incs = req.all("inc");
    let fmts = ["text", "sexp", "html", "xml", "css"];
    let mut rng = XorShift(req.text("seed").unwrap().parse::<u64>().unwrap() | 1);
    let steps: usize = req.text("steps").unwrap().parse().unwrap();
    let builders: Vec<Expander> = srcs.iter().map(|src| {
        let mut b = seam::tree_builder(Option::<&str>::None, src.clone());
        b.add_includes(incs.iter());
        if src.len() % 3 == 1 { let c = b.clone(); drop(b); c } else { b }
    }).collect();
    let n = builders.len();
    let mut trees: Vec<Option<ParseTree>> = (0..n).map(|_| None).collect();
    let mut errors: Vec<Option<Box<dyn std::error::Error + '_>>> = (0..n).map(|_| None).collect();
    let mut done = vec![false; n];
    let mut results: std::collections::BTreeMap<(usize, String), Result<String, String>> = Default::default();
    let mut differs: Vec<(usize, String, Result<String, String>)> = vec![];
    let mut pool: Vec<(usize, &str, Box<dyn MarkupFormatter + '_>)> = vec![];
    let mut nodes: Vec<(usize, ParseNode, String)> = vec![];
    let mut used = [0usize; 9];
    for _ in 0..steps {
        let d = rng.below(n);
        if !done[d] {
            done[d] = true;
            used[0] += 1;
            match builders[d].expand() {
                Ok(t) => {
                    results.insert((d, "tree".into()), Ok(t.iter().map(|n| n.to_string()).collect()));
                    trees[d] = Some(t);
                }
                Err(e) => { results.insert((d, "tree".into()), Err(e.to_string())); errors[d] = Some(e); }
            }
            continue;
        }
        let mut record = |d: usize, key: String, r: Result<String, String>| {
            match results.get(&(d, key.clone())) {
                None => { results.insert((d, key), r); }
                Some(old) => if *old != r { differs.push((d, key, r)); }
            }
        };
        let op = rng.below(12);
        match op {
            0 | 1 => if let Some(t) = &trees[d] {
                used[1] += 1;
                let f = fmts[rng.below(fmts.len())];
                pool.push((d, f, formatter(f, t.clone())));
            },
            2 | 3 => if !pool.is_empty() {
                used[2] += 1;
                let (d, f, p) = &pool[rng.below(pool.len())];
                record(*d, f.to_string(), p.display().map_err(|e| e.to_string()));
            },
            4 | 5 => if !pool.is_empty() {
                used[3] += 1;
                let (d, f, p) = &pool[rng.below(pool.len())];
                record(*d, format!("{}!", f), p.document().map_err(|e| e.to_string()));
            },
            6 => if !pool.is_empty() && pool.len() < 12 {
                used[4] += 1;
                let (d, f, p) = &pool[rng.below(pool.len())];
                let c = (*d, *f, p.clone());
                pool.push(c);
            },
            7 => if !pool.is_empty() {
                used[5] += 1;
                let i = rng.below(pool.len());
                pool.swap_remove(i);
            },
            8 => if let Some(t) = &trees[d] {
                used[6] += 1;
                record(d, "tree".into(), Ok(t.iter().map(|n| n.to_string()).collect()));
                if !t.is_empty() {
                    let node = t[rng.below(t.len())].clone();
                    let text = node.to_string();
                    nodes.push((d, node, text));
                }
            } else if let Some(e) = &errors[d] {
                record(d, "tree".into(), Err(e.to_string()));
            },
            9 => if !nodes.is_empty() {
                used[7] += 1;
                let i = rng.below(nodes.len());
                let (d, node, text) = &nodes[i];
                let now = node.to_string();
                if now != *text { differs.push((*d, "node".into(), Ok(now))); }
                let _ = format!("{:?} {:?}", node.site(), node.owned_site().line_slice());
                if rng.below(2) == 0 { nodes.swap_remove(i); }
            },
            10 => if rng.below(3) == 0 {
                // Trees may go before the formatters built from them.
                used[8] += 1;
                if let Some(t) = trees[d].take() {
                    let again = t.clone();
                    drop(t);
                    trees[d] = Some(again);
                }
            },
            _ => if let Some(t) = &trees[d] {
                // A formatter that never finds anything to write to.
                let f = formatter(fmts[rng.below(fmts.len())], t.clone());
                let mut sink = String::new();
                let _ = f.generate(&mut sink);
            },
        }
    }
    drop(trees);
    for (d, f, p) in pool.iter() {
        let r = p.display().map_err(|e| e.to_string());
        match results.get(&(*d, f.to_string())) {
            None => { results.insert((*d, f.to_string()), r); }
            Some(old) => if *old != r { differs.push((*d, f.to_string(), r)); }
        }
    }
    let put = |d: usize, k: &str, r: &Result<String, String>, out: &mut String| {
        out.push_str(&format!("[{},", d));
        js(k, out);
        out.push(',');
        outcome(r.clone(), out);
        out.push(']');
    };
    out.push_str("{\"results\":[");
    for (i, ((d, k), r)) in results.iter().enumerate() {
        if i > 0 { out.push(','); }
        put(*d, k, r, out);
    }
    out.push_str("],\"differs\":[");
    for (i, (d, k, r)) in differs.iter().enumerate() {
        if i > 0 { out.push(','); }
        put(*d, k, r, out);
    }
    out.push_str(&format!("],\"used\":{:?}}}", used));
}

fn op_search(req: &Request, out: &mut String) {
    let lexer = Lexer::new(String::from("<search>"), req.text("src").unwrap());
    let parser = Parser::new(lexer);
    let kind = match req.text("kind").as_deref() {
        Some("head") => SearchType::ListHead, Some("member") => SearchType::ListMember,
        Some("symbol") => SearchType::Symbol, Some("number") => SearchType::Number,
        Some("string") => SearchType::String, Some("attr") => SearchType::Attribute,
        _ => SearchType::Any,
    };
    let level: usize = req.text("level").unwrap().parse().unwrap();
    let value = req.text("value").unwrap();
    match parser.parse() {
        Ok(t) => {
            match t.search_node(kind, &value, req.flag("insensitive"), level) {
                Some(n) => { out.push_str("{\"found\":"); node_json(n, true, out); out.push('}'); }
                None => out.push_str("{\"found\":null}"),
            }
        }
        Err(e) => { out.push_str("{\"err\":"); js(&e.to_string(), out); out.push('}'); }
    };
}

fn handle(op: &str, req: &Request, out: &mut String) {
    match op {
        "run" => op_run(req, out),
        "parse" => op_parse(req, out),
        "lex" => op_lex(req, out),
        "threads" => op_threads(req, out),
        "life" => op_life(req, out),
        "search" => op_search(req, out),
        "escape" => { out.push_str("{\"ok\":"); js(&assemble::escape_xml(&req.text("src").unwrap()), out); out.push('}'); }
        other => panic!("observer: bad op {:?}", other),
    }
}

fn main() { common::run(handle) }
