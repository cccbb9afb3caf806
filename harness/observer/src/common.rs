//! Framing, JSON output and panic capture of the observers.
use seam::assemble::{self, MarkupFormatter};
use seam::parse::parser::{ParseNode, ParseTree};
use seam::parse::tokens::Site;

use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::panic;

pub struct Request { pub pairs: Vec<(String, Vec<u8>)> }

impl Request {
    pub fn get(&self, key: &str) -> Option<&[u8]> {
        self.pairs.iter().find(|(k, _)| k == key).map(|(_, v)| v.as_slice())
    }
    pub fn text(&self, key: &str) -> Option<String> {
        self.get(key).map(|v| String::from_utf8(v.to_vec()).expect("request field is not UTF-8"))
    }
    pub fn flag(&self, key: &str) -> bool { self.get(key).is_some() }
    pub fn all(&self, key: &str) -> Vec<String> {
        self.pairs.iter().filter(|(k, _)| k == key)
            .map(|(_, v)| String::from_utf8(v.clone()).expect("request field is not UTF-8")).collect()
    }
}

pub fn read_u32(r: &mut impl Read) -> Option<u32> {
    let mut b = [0u8; 4];
    r.read_exact(&mut b).ok()?;
    Some(u32::from_le_bytes(b))
}

pub fn read_request(r: &mut impl Read) -> Option<Request> {
    let n = read_u32(r)? as usize;
    let mut buf = vec![0u8; n];
    r.read_exact(&mut buf).ok()?;
    let mut cur = io::Cursor::new(buf);
    let mut pairs = vec![];
    while (cur.position() as usize) < n {
        let kl = read_u32(&mut cur)? as usize;
        let mut k = vec![0u8; kl];
        cur.read_exact(&mut k).ok()?;
        let vl = read_u32(&mut cur)? as usize;
        let mut v = vec![0u8; vl];
        cur.read_exact(&mut v).ok()?;
        pairs.push((String::from_utf8(k).unwrap(), v));
    }
    Some(Request { pairs })
}

/* JSON output. */

pub fn js(s: &str, out: &mut String) {
    // A str that is not UTF-8 is undefined behaviour waiting for its reader.
    if let Err(e) = std::str::from_utf8(std::hint::black_box(s.as_bytes())) {
        eprintln!("OBSERVER: a str that is not UTF-8: {}: {:?}", e, String::from_utf8_lossy(s.as_bytes()));
        std::process::exit(97);
    }
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn site_json(site: &Site, out: &mut String) {
    out.push('[');
    js(site.source, out);
    out.push_str(&format!(",{},{},{},{},{}]", site.line, site.bytes_from_start,
        site.bytes_from_start_of_line, site.bytes_span, site.source_code.len()));
}

/// ["y"|"n"|"s"|"r", value, ws(, site)] | ["l", ws, end_ws, [..](, site, end_site)] | ["a", keyword, ws, node(, site)]
pub fn node_json(node: &ParseNode, sites: bool, out: &mut String) {
    let atom = |tag: &str, n: &seam::parse::parser::Node, out: &mut String| {
        out.push_str("[\"");
        out.push_str(tag);
        out.push_str("\",");
        js(&n.value, out);
        out.push(',');
        js(&n.leading_whitespace, out);
        if sites { out.push(','); site_json(&n.site, out); }
        out.push(']');
    };
    match node {
        ParseNode::Symbol(n) => atom("y", n, out),
        ParseNode::Number(n) => atom("n", n, out),
        ParseNode::String(n) => atom("s", n, out),
        ParseNode::Raw(n) => atom("r", n, out),
        ParseNode::List { nodes, site, end_token, leading_whitespace } => {
            out.push_str("[\"l\",");
            js(leading_whitespace, out);
            out.push(',');
            js(end_token.leading_whitespace, out);
            out.push(',');
            tree_json(nodes, sites, out);
            if sites {
                out.push(',');
                site_json(site, out);
                out.push(',');
                site_json(&end_token.site, out);
            }
            out.push(']');
        }
        ParseNode::Attribute { keyword, node, site, leading_whitespace } => {
            out.push_str("[\"a\",");
            js(keyword, out);
            out.push(',');
            js(leading_whitespace, out);
            out.push(',');
            node_json(node, sites, out);
            if sites { out.push(','); site_json(site, out); }
            out.push(']');
        }
    }
}

pub fn tree_json(tree: &[ParseNode], sites: bool, out: &mut String) {
    out.push('[');
    for (i, node) in tree.iter().enumerate() {
        if i > 0 { out.push(','); }
        node_json(node, sites, out);
    }
    out.push(']');
}

pub fn formatter<'a>(name: &str, tree: ParseTree<'a>) -> Box<dyn MarkupFormatter + 'a> {
    match name {
        "text" => Box::new(assemble::text::PlainTextFormatter::new(tree)),
        "sexp" => Box::new(assemble::sexp::SExpFormatter::new(tree)),
        "html" => Box::new(assemble::html::HTMLFormatter::new(tree)),
        "xml" => Box::new(assemble::xml::XMLFormatter::new(tree)),
        "css" => Box::new(assemble::css::CSSFormatter::new(tree)),
        _ => panic!("observer: unknown format {}", name),
    }
}

thread_local! { pub static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }

/// Run `f`; a panic becomes `{"panic":[message, location]}`.
pub fn guarded(out: &mut String, f: impl FnOnce(&mut String)) {
    let mark = out.len();
    let res = panic::catch_unwind(panic::AssertUnwindSafe(|| {
        let mut piece = String::new();
        f(&mut piece);
        piece
    }));
    match res {
        Ok(piece) => out.push_str(&piece),
        Err(_) => {
            out.truncate(mark);
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take())
                .unwrap_or((String::from("?"), String::from("?")));
            out.push_str("{\"panic\":[");
            js(&msg, out);
            out.push(',');
            js(&loc, out);
            out.push_str("]}");
        }
    }
}

pub fn outcome(res: Result<String, String>, out: &mut String) {
    match res {
        Ok(s) => { out.push_str("{\"ok\":"); js(&s, out); out.push('}'); }
        Err(e) => { out.push_str("{\"err\":"); js(&e, out); out.push('}'); }
    }
}


pub fn run(handle: fn(&str, &Request, &mut String)) {
    // A deep stack, so that ordinary nesting is never limited by the debug
    // build's large frames.
    let size = std::env::var("SEAMOBS_STACK_MB").ok().and_then(|v| v.parse().ok()).unwrap_or(1024usize);
    std::thread::Builder::new().stack_size(size << 20).spawn(move || serve(handle)).unwrap().join().unwrap();
}

fn serve(handle: fn(&str, &Request, &mut String)) {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { String::from("?") };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
    let stdin = io::stdin();
    let mut stdin = stdin.lock();
    // Answers go to a descriptor of their own where there is one, so that
    // nothing the library might print can be taken for one.
    let mut answers: Box<dyn Write> = match std::env::var("SEAMOBS_FD").ok().and_then(|v| v.parse().ok()) {
        Some(fd) => { use std::os::fd::FromRawFd; Box::new(unsafe { std::fs::File::from_raw_fd(fd) }) },
        None => Box::new(io::stdout()),
    };
    while let Some(req) = read_request(&mut stdin) {
        let mut out = String::new();
        if let Some(dir) = req.text("cwd") { std::env::set_current_dir(dir).expect("observer: cwd"); }
        let envs: Vec<(String, Vec<u8>)> = req.pairs.iter()
            .filter(|(k, _)| k.starts_with("env:")).map(|(k, v)| (k[4..].to_owned(), v.clone())).collect();
        for (k, v) in &envs {
            use std::os::unix::ffi::OsStringExt;
            std::env::set_var(k, std::ffi::OsString::from_vec(v.clone()));
        }
        guarded(&mut out, |out| match req.text("op").as_deref() {
            Some("ping") => out.push_str("{\"ok\":\"pong\"}"),
            Some(op) => handle(op, &req, out),
            None => panic!("observer: no op"),
        });
        for (k, _) in &envs { std::env::remove_var(k); }
        let bytes = out.as_bytes();
        let mut answer = (bytes.len() as u32).to_le_bytes().to_vec();
        answer.extend_from_slice(bytes);
        answers.write_all(&answer).unwrap();
        answers.flush().unwrap();
    }
}

