//! C18: the real tokenizer against a reference tokenizer on all texts of bounded spaces.
use crate::par::*;
use crate::report::Report;
use protospec_build as pb;
use pb::Token;

const PUNCT: &[(&str, Token)] = &[
    (">>>", Token::ShrSigned), ("==", Token::Eq), ("!=", Token::Ne), ("<=", Token::LtEq), (">=", Token::GtEq), ("<<", Token::Shl), (">>", Token::Shr),
    ("->", Token::Arrow), ("::", Token::DoubleColon), (":>", Token::Cast), ("||", Token::Or), ("&&", Token::And), ("..", Token::DotDot), ("?:", Token::Elvis),
    ("=", Token::Equal), (",", Token::Comma), (";", Token::Semicolon), ("?", Token::Question), ("[", Token::LeftSquare), ("]", Token::RightSquare),
    ("{", Token::LeftCurly), ("}", Token::RightCurly), ("(", Token::LeftParen), (")", Token::RightParen), ("+", Token::Plus), ("-", Token::Minus),
    ("*", Token::Mul), ("/", Token::Div), ("%", Token::Mod), ("^", Token::BitXor), ("~", Token::BitNot), ("|", Token::BitOr), ("&", Token::BitAnd),
    (".", Token::Dot), (":", Token::Colon), ("<", Token::Lt), (">", Token::Gt), ("!", Token::Not),
];
const WORDS: &[(&str, Token)] = &[
    ("type", Token::Type), ("as", Token::As), ("import", Token::Import), ("import_ffi", Token::ImportFfi), ("from", Token::From), ("transform", Token::Transform),
    ("function", Token::Function), ("const", Token::Const), ("container", Token::Container), ("enum", Token::Enum), ("default", Token::Default), ("bitfield", Token::Bitfield),
    ("bool", Token::Bool), ("true", Token::True), ("false", Token::False), ("f32", Token::F32), ("f64", Token::F64),
    ("u8", Token::U8), ("u16", Token::U16), ("u32", Token::U32), ("u64", Token::U64), ("u128", Token::U128),
    ("i8", Token::I8), ("i16", Token::I16), ("i32", Token::I32), ("i64", Token::I64), ("i128", Token::I128),
    ("u16le", Token::U16Le), ("u32le", Token::U32Le), ("u64le", Token::U64Le), ("u128le", Token::U128Le),
    ("i16le", Token::I16Le), ("i32le", Token::I32Le), ("i64le", Token::I64Le), ("i128le", Token::I128Le),
];

/// a token and the byte range of its text, or the offset of the first text that is no token
pub fn reference(text: &str) -> Result<Vec<(Token, usize, usize)>, usize> {
    let cs: Vec<(usize, char)> = text.char_indices().collect();
    let at = |i: usize| cs.get(i).map(|c| c.1);
    let off = |i: usize| cs.get(i).map(|c| c.0).unwrap_or(text.len());
    let mut out = vec![];
    let mut i = 0;
    while let Some(c) = at(i) {
        let from = i;
        if matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c') { i += 1; continue; }
        let rest = &text[off(i)..];
        let token = if c == '"' {
            let mut bytes = vec![];
            i += 1;
            loop {
                match at(i) {
                    None => return Err(off(from)),
                    Some('"') => { i += 1; break; }
                    Some('\\') => {
                        i += 1;
                        match at(i) {
                            None => return Err(off(from)),
                            Some(h) if h.is_ascii_hexdigit() => {
                                let mut v = h.to_digit(16).unwrap();
                                i += 1;
                                if let Some(h2) = at(i).filter(|x| x.is_ascii_hexdigit()) { v = v * 16 + h2.to_digit(16).unwrap(); i += 1; }
                                bytes.push(v as u8);
                            }
                            Some(o) => { bytes.extend(o.to_string().bytes()); i += 1; }
                        }
                    }
                    Some(o) => { bytes.extend(o.to_string().bytes()); i += 1; }
                }
            }
            Token::String(bytes)
        } else if rest.starts_with("//") {
            while at(i).map_or(false, |c| c != '\n') { i += 1; }
            Token::CommentLine(text[off(from) + 2..off(i)].to_string())
        } else if rest.starts_with("/*") {
            match rest[2..].find("*/") {
                None => return Err(off(from)),
                Some(n) => { let end = off(from) + 2 + n + 2; while off(i) < end { i += 1; } Token::CommentBlock(rest[2..2 + n].to_string()) }
            }
        } else if c.is_ascii_digit() {
            if rest.starts_with("0x") { i += 2; while at(i).map_or(false, |c| c.is_ascii_hexdigit()) { i += 1; } } else { while at(i).map_or(false, |c| c.is_ascii_digit()) { i += 1; } }
            Token::Int(text[off(from)..off(i)].to_string())
        } else if c == '_' || c.is_ascii_alphabetic() {
            while at(i).map_or(false, |c| c == '_' || c.is_ascii_alphanumeric()) { i += 1; }
            let w = &text[off(from)..off(i)];
            WORDS.iter().find(|x| x.0 == w).map(|x| x.1.clone()).unwrap_or(Token::Ident(w.to_string()))
        } else if let Some((p, t)) = PUNCT.iter().find(|p| rest.starts_with(p.0)) {
            i += p.len();
            t.clone()
        } else { return Err(off(from)); };
        out.push((token, off(from), off(i)));
    }
    Ok(out)
}
/// line and column (in bytes, from 1) of a byte offset
pub fn place(text: &str, off: usize) -> (u64, u64) {
    let before = &text.as_bytes()[..off];
    let line = before.iter().filter(|b| **b == b'\n').count() as u64 + 1;
    (line, (off - before.iter().rposition(|b| *b == b'\n').map(|p| p + 1).unwrap_or(0)) as u64 + 1)
}
fn comment(t: &Token) -> bool { matches!(t, Token::CommentLine(_) | Token::CommentBlock(_)) }

pub fn compare(text: &str, a: &mut Acc) {
    a.states += 1;
    let want = reference(text);
    for strip in [false, true] {
        a.steps += 1;
        let _on = crate::watch::on(text);
        let got = match crate::fe::quiet(|| pb::tokenize(text, strip)) { Ok(g) => g, Err(p) => { a.viol("the tokenizer panics", &format!("{:?}", text), p); continue } };
        match (&want, got) {
            (Err(off), Err(e)) => {
                let (l, c) = place(text, *off);
                let e = e.to_string();
                let nums: Vec<u64> = e.rsplit('@').next().unwrap_or("").split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
                if nums != [l, c] { a.viol("error position", &format!("{:?}", text), format!("the offending text is at {}:{}, reported: {}", l, c, e)); } else { a.ok += 1; }
            }
            (Err(off), Ok(g)) => a.viol("accepts what is no token", &format!("{:?}", text), format!("offset {}, tokens {:?}", off, g)),
            (Ok(w), Err(e)) => a.viol("rejects valid tokens", &format!("{:?}", text), format!("expected {} tokens, got error {}", w.len(), e)),
            (Ok(w), Ok(g)) => {
                let w: Vec<_> = w.iter().filter(|t| !(strip && comment(&t.0))).collect();
                if w.len() != g.len() || w.iter().zip(&g).any(|(w, g)| w.0 != g.token) { a.viol("other tokens", &format!("{:?}", text), format!("expected {:?}, got {:?}", w.iter().map(|w| w.0.to_string()).collect::<Vec<_>>(), g)); continue; }
                let mut bad = false;
                for (w, g) in w.iter().zip(&g) {
                    let (s, e) = (place(text, w.1), place(text, w.2));
                    let line_comment = matches!(w.0, Token::CommentLine(_));
                    if (g.span.line_start, g.span.col_start) != s || (!line_comment && (g.span.line_stop, g.span.col_stop) != e) { a.viol("token position", &format!("{:?}", text), format!("token {} spans {}:{} to {}:{}, reported {}:{} to {}:{}", w.0, s.0, s.1, e.0, e.1, g.span.line_start, g.span.col_start, g.span.line_stop, g.span.col_stop)); bad = true; break; }
                }
                if !bad { a.ok += 1; a.yes += 1; }
            }
        }
    }
    if a.samples.len() < 3 && want.map_or(false, |w| w.len() > 2) { a.samples.push(format!("{:?}", text)); }
}

fn space(rep: &mut Report, part: &str, alpha: &[&str], len: u32, pre: &str, post: &str) {
    let n = words(alpha.len() as u64, len);
    let accs = par(n, Acc::default, |i, a| {
        let mut w = vec![];
        word(alpha.len() as u64, i, &mut w);
        let mut t = String::from(pre);
        for x in &w { t.push_str(alpha[*x]); }
        t.push_str(post);
        compare(&t, a);
    });
    collect(rep, part, accs);
}
fn list(rep: &mut Report, part: &str, texts: Vec<String>) {
    let accs = par(texts.len() as u64, Acc::default, |i, a| compare(&texts[i as usize], a));
    collect(rep, part, accs);
}

pub fn check(rep: &mut Report) {
    let deep = rep.tier == "thorough";
    let d = if deep { 1 } else { 0 };
    let classes = [" ", "\n", "a", "x", "_", "0", "7", "\"", "\\", "/", "*", "=", "<", ">", "-", "!", ":", ".", "?", "|", "&", "+", "(", "#", "é"];
    space(rep, "character_classes", &classes, 4 + d, "", "");
    let punct = [",", ";", "?", "[", "]", "{", "}", "(", ")", "+", "-", "*", "/", "%", "^", "~", "|", "&", ".", ":", "<", ">", "!", "=", " "];
    space(rep, "punctuation", &punct, 4 + d, "", "");
    space(rep, "operators", &["=", "<", ">", "-", "!", ":", ".", "?", "|", "&"], 6 + d, "", "");
    let strings = ["\"", "\\", "a", "F", "0", "9", "g", "\n", " ", "é"];
    space(rep, "strings", &strings, 6 + d, "", "");
    space(rep, "inside_a_string", &strings, 5 + d, "x \"", "\" y");
    space(rep, "comments", &["/", "*", "\n", "a", "\""], 8 + d, "", "");
    space(rep, "inside_a_comment", &["/", "*", "\n", "a", "é", "\""], 6 + d, "b/*", "*/c\n d");
    space(rep, "numbers", &["0", "1", "9", "x", "X", "a", "f", "g", "_", "u8", ".", "-", " "], 5 + d, "", "");
    space(rep, "layout", &["\n", "\r", "\t", " ", "\x0b", "\x0c", "a", ";", "\"", "//"], 6 + d, "", "");
    // every character in every lexical state
    let mut texts = vec![];
    for c in (0u32..0x250).chain([0x2028, 0xfeff, 0xfffd, 0x1f600]).filter_map(char::from_u32) {
        for (p, q) in [("", ""), ("a", "b"), ("1", "2"), ("0x", "f"), ("\"", "\" z"), ("\"\\", "\" z"), ("\"\\a", "0\" z"), ("//", "\nz"), ("/*", "*/ z"), ("+", "="), ("\n a ", " b")] { texts.push(format!("{}{}{}", p, c, q)); }
    }
    list(rep, "every_character", texts);
    // every pair and triple of token texts, glued and apart; keywords with every single edit
    let mut toks: Vec<&str> = PUNCT.iter().chain(WORDS).map(|x| x.0).collect();
    toks.extend(["a", "A_9", "_", "0", "12", "0x1F", "0x", "\"s\"", "\"\"", "\"\\41\\\"\"", "/*c*/", "//l\n", "/*\n*/", "\"\n\""]);
    let seps = ["", " ", "\n"];
    let n = toks.len() as u64;
    let accs = par(n * n * n * if deep { 9 } else { 3 }, Acc::default, |i, a| {
        let (x, y, z, s) = ((i % n) as usize, (i / n % n) as usize, (i / n / n % n) as usize, (i / n / n / n) as usize);
        compare(&format!("{}{}{}{}{}", toks[x], seps[s % 3], toks[y], seps[if deep { s / 3 } else { s }], toks[z]), a);
    });
    collect(rep, "token_triples", accs);
    let mut texts = vec![];
    for (w, _) in WORDS {
        for i in 0..=w.len() {
            for c in "_0189abcdefghilmnoprstuyA".chars() { texts.push(format!("{}{}{}", &w[..i], c, &w[i..])); if i < w.len() { texts.push(format!("{}{}{}", &w[..i], c, &w[i + 1..])); } }
            if i < w.len() { texts.push(format!("{}{}", &w[..i], &w[i + 1..])); texts.push(w[..i].to_string()); }
        }
        texts.push(w.to_uppercase());
    }
    list(rep, "keyword_edits", texts);
    rep.notes.push("columns count bytes; the end of a line comment's range is not compared".into());
}
