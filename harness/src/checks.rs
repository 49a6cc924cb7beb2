//! One case generator and one concrete check per property.
use crate::canon::{self, Opts};
use crate::print;
use crate::reflex;
use crate::refparse;
use crate::rng::Rng;
use crate::tree::{self, E, S};
use crate::walk;

#[derive(Clone, Debug)]
pub struct Case {
    pub text: String,
    pub aux: String,
}

fn case(text: impl Into<String>, aux: impl Into<String>) -> Case {
    Case { text: text.into(), aux: aux.into() }
}

// ------------------------------------------------------------------ texts

const ALPHA_PUNCT: &[&str] = &["=", "!", "<", ">", "&", "|", "+", "-", "*", "/", "%", "^", ".", "a", "0", " ", "?", "~", ";", "\n"];
const ALPHA_LIT: &[&str] = &["'", "\\", "/", "*", "[", "]", "`", "$", "{", "}", "0", "1", "9", ".", "e", "+", "x", "a", " ", "\n", "\"", "é", "b", "o", "\r"];
const ALPHA_ASI: &[&str] = &[" ", "\n", "/", "*", "a", ";", ")", "}", "\t", "'"];
const ALPHA_ALL: &[&str] = &["'", "\\", "/", "*", "`", "$", "{", "}", "0", ".", "e", "a", " ", "\n", "é", "→", "#", "😀", "(", "x", "-", "\r"];

const PIECES: &[&str] = &[
    "/*", "*/", "//", "/", "\n", " ", "\t", "\r\n", "'", "\"", "`", "${", "}", "{", "\\", "\\'", "\\\n", "$", "0x", "0b1", "0o7", "1.", ".5", "e",
    "E+", "e-3", "[", "]", "(", ")", "...", "..", ".", "é", "→", "😀", "日", "#", "@", "\u{7f}", "\u{a0}", "\u{2028}", "/a/", "/[/]/g", "'x'", "1e5", "0",
    "42", "`a`", "`a${", "}b`", "\u{feff}", "=>", "/=", "/**/", "/***/", "/*\n*/", "// x\n", "\u{1}", "\u{10ffff}", "gimuy", "\\\\", "*", "'\\\\'", "'\n'",
];

fn nth(alphabet: &[&str], mut n: usize) -> Option<String> {
    // The n-th text over the alphabet, shortest first
    let k = alphabet.len();
    let mut len = 0;
    let mut block = 1usize;
    while n >= block {
        n -= block;
        block = block.checked_mul(k)?;
        len += 1;
    }
    let mut s = Vec::new();
    for _ in 0..len {
        s.push(alphabet[n % k]);
        n /= k;
    }
    s.reverse();
    Some(s.concat())
}

fn word(r: &mut Rng) -> String {
    let mut w: String = reflex::WORDS[r.below(reflex::WORDS.len())].0.to_string();
    match r.below(9) {
        0 => w.push_str(*r.pick(&["s", "1", "_", "$", "é", "x", "\\", "日", "A"])),
        1 => {
            w.pop();
        }
        2 => {
            let i = r.below(w.len());
            w.replace_range(i..i + 1, *r.pick(&["x", "E", "1", "_", "é", "."]));
        }
        3 => {
            let i = r.below(w.len() + 1);
            w.insert_str(i, *r.pick(&["x", "E", "1", "_", "é"]));
        }
        4 => w.insert_str(0, *r.pick(&["x", "$", "_", "é", ".", ". ", "./**/", ".\n"])),
        5 => {
            let o = reflex::WORDS[r.below(reflex::WORDS.len())].0;
            w.push_str(o);
        }
        6 => {
            let o = reflex::WORDS[r.below(reflex::WORDS.len())].0;
            let i = r.below(w.len());
            w.truncate(i);
            w.push_str(o);
        }
        _ => {}
    }
    w
}

/// Words: every reserved word, and every word one change away from one
fn word_case(i: usize) -> Option<String> {
    const CH: &[&str] = &["a", "z", "E", "0", "_", "$", "\\", "é", "😀", " ", ".", "-", "`", "\u{1}", "{", "[", "@", "s"];
    const FRAME: &[(&str, &str)] = &[("", ""), ("", ";"), ("x ", "(y"), (".", ""), ("a.", "+b"), ("a . ", "\n"), ("$", ""), ("", ".x")];
    let nw = reflex::WORDS.len();
    let w = reflex::WORDS[i % nw].0;
    let k = i / nw;
    let f = FRAME[k % FRAME.len()];
    let mut k = k / FRAME.len();
    let mut s = w.to_string();
    if k > 0 {
        k -= 1;
        let edits = 1 + 2 * CH.len();
        let at = k / edits;
        if at > w.len() {
            return None;
        }
        match k % edits {
            0 => s.truncate(at),
            e if e <= CH.len() => s.insert_str(at, CH[e - 1]),
            e => {
                if at < w.len() {
                    s.replace_range(at..at + 1, CH[e - 1 - CH.len()])
                } else {
                    s.push_str(CH[e - 1 - CH.len()])
                }
            }
        }
    }
    Some(format!("{}{}{}", f.0, s, f.1))
}

fn soup(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.below(max);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(10) {
            0 | 1 => s.push_str(&word(r)),
            2 | 3 => s.push_str(reflex::PUNCT[r.below(reflex::PUNCT.len())].0),
            4 => s.push_str(*r.pick(&["a", "b1", "$x", "_", "foo", "ünï", "日本"])),
            _ => s.push_str(*r.pick(PIECES)),
        }
        if r.chance(1, 3) {
            s.push_str(*r.pick(&[" ", "\n", "", "/**/"]));
        }
    }
    s
}

fn size_for(i: usize) -> i32 {
    // Small programs first, and most of the time
    match i {
        0..=400 => 2 + (i / 40) as i32,
        _ => 4 + ((i * 7919) % 38) as i32,
    }
}

/// any character beyond ASCII
fn character(r: &mut Rng) -> char {
    let n = match r.below(4) {
        0 => 0x80 + r.below(0x80),
        1 => 0x80 + r.below(0x780),
        2 => 0x800 + r.below(0xF800),
        _ => 0x10000 + r.below(0x100000),
    };
    std::char::from_u32(n as u32).unwrap_or('\u{A0}')
}

fn program_text(r: &mut Rng, i: usize) -> String {
    let s = program_text_with(r, i);
    if r.chance(1, 2) {
        return s;
    }
    // within literals and comments
    s.chars().map(|c| if c == 'é' { character(r) } else { c }).collect()
}

fn program_text_with(r: &mut Rng, i: usize) -> String {
    let p = tree::program(r, size_for(i));
    let toks = if r.chance(1, 3) { print::tokens(&p, Some(r)) } else { print::tokens(&p, None) };
    if r.chance(1, 3) {
        print::layout(&toks, r)
    } else {
        print::plain(&toks)
    }
}

fn mutate(r: &mut Rng, p: &[S]) -> String {
    let mut toks = print::tokens(p, None);
    for _ in 0..1 + r.below(2) {
        if toks.is_empty() {
            break;
        }
        let i = r.below(toks.len());
        let j = r.below(toks.len());
        match r.below(6) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let t = toks[i].clone();
                toks.insert(j, t);
            }
            2 => toks.swap(i, j),
            3 => toks.truncate(i),
            4 => {
                let t = toks[j].clone();
                toks[i] = t;
            }
            _ => {
                toks[i].text = match r.below(3) {
                    0 => reflex::PUNCT[r.below(reflex::PUNCT.len())].0.to_string(),
                    1 => word(r),
                    _ => r.pick(PIECES).to_string(),
                }
            }
        }
    }
    let mut s = print::plain(&toks);
    if r.chance(1, 6) {
        let mut n = r.below(s.len() + 1);
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    s
}

/// A place in a program, `@`, and what may or may not stand there
const SLOTS: &[&str] = &[
    "@", "@;", "(@)", "[@]", "[a,@]", "f(@)", "f(a,@)", "f(@,b)", "new F(@)", "a[@]", "a.@", "new.@", "new @", "x=@", "x+=@", "x?@:b", "x?a:@", "x=>@", "(@)=>a", "(a,@)=>a", "x=>{@}", "-@", "@++", "++@",
    "typeof @", "a+@", "@+a", "a**@", "@**a", "a in @", "@ instanceof a", "({a:@})", "({@})", "({[@]:1})", "({@:1})", "({...@})", "({@(){}})", "({a(@){}})", "({a(){@}})", "`${@}`", "`a${@}b${c}`", "@`t`", "...@",
    "class A{@}", "class A{@=b}", "class A{a=@}", "class A{a=@;b(){}}", "class A{static @}", "class A{static a=@}", "class A{[@]=b}", "class A{[@](){}}", "class A{@(){}}", "class A{get @(){}}", "class A{set @(a){}}",
    "class A{a(@){}}", "class A{a(){@}}", "class @{}", "class A extends @{}", "x=class @{}", "x=class extends @{}", "function @(){}", "function f(@){}", "function f(a,@){}", "function f(a=@){}", "function f(){@}",
    "function*f(){@}", "function*@", "x=function(@){}", "x=function @(){}", "var @", "var @=b", "var a=@", "var a,@", "let a=@,b", "const @=b", "var {@}=b", "var [@]=b", "var {a:@}=b", "var {a=@}=b", "var {[@]:c}=b", "var [a=@]=b",
    "var [...@]=b", "var {...@}=b", "if(@)b", "if(a)@", "if(a)b;else @", "while(@)b", "while(a)@", "do @ while(b)", "do a;while(@)", "for(@)b", "for(@;;)b", "for(;@;)b", "for(;;@)b", "for(;;)@", "for(@ of b)c", "for(@ in b)c",
    "for(a of @)c", "for(a in @)c", "for(var a=@;;)b", "for(var @ of b)c", "for(let @;;)b", "return @", "function f(){return @}", "throw @", "break @", "continue @", "a:@", "@:a", "switch(@){}", "switch(a){@}", "switch(a){case @:}",
    "switch(a){case 1:@}", "switch(a){default:@}", "switch(a){case 1:@ case 2:}", "try @ finally {}", "try{@}catch(a){}", "try{}catch(@){}", "try{}catch(a){@}", "try{}finally{@}", "import @", "import @ from 'a'", "import {@} from 'a'",
    "import {a as @} from 'a'", "import {a,@} from 'a'", "import * as @ from 'a'", "import a,@ from 'a'", "import a from @", "{@}", "a\n@", "@\na", "a @", "yield @",
];
const FILLERS: &[&str] = &[
    "", "a", "a,b", "(a,b)", "(a)", "()", "a=b", "a+=b", "(a=b)", "a=>b", "a=>{}", "(a,b)=>c", "(a=1)=>b", "(...a)=>b", "(...a,b)=>c", "...a", "...[a]", "function(){}", "function f(){}", "function*(){}", "class{}", "class A{}",
    "{a}", "{}", "[]", "[a,,b]", "[,]", "[a,]", "{a:b}", "{a,b}", "{a,}", "{a=1}", "{[a]:b}", "{...a}", "[...a]", "({a})", "[a=1]", "a?b:c", "a||b", "a+b*c", "a in b", "a instanceof b", "-a", "++a", "a++", "a\n++", "!a", "new a", "new a()",
    "new.target", "this", "super", "null", "true", "'s'", "1", "0b1", "1e3", "/r/g", "`t`", "`a${b}c`", "a`t`", "a.b", "a.if", "a[b]", "a()", "a(b)(c)", "a b", "a;", "a;b", ";", "var a", "var a=1", "let a", "const a=1", "let a;b", "if(a)b", "if(a);else b",
    "return", "return a", "break", "continue", "throw a", "debugger", "a:b", "while(a);", "do a;while(b)", "for(;;);", "switch(a){}", "try{}catch(a){}", "case 1", "default:", "default:a", "case 1:a", "import a from 'b'", "export a", "of", "get", "set",
    "as", "from", "static", "constructor", "async", "await", "yield", "yield a", "if", "class", "get a", "get a(){}", "set a(b){}", "static a", "static a(){}", "a(){}", "*a(){}", "'s'(){}", "1(){}", "[a](){}", "constructor(){}", "a as b", "* as a",
    "default as a", "a,{b}", ",a", "a,", "a,,b", "=", "=1", ":", ".", "}", ")", "]", "\n", "/**/", "//c\n", "a//c\n", "a\nb", "a/*\n*/b", "é", "\\", "#a",
];
fn slots(r: &mut Rng, k: usize) -> String {
    let n = SLOTS.len() * FILLERS.len();
    if k < n {
        return SLOTS[k / FILLERS.len()].replace('@', FILLERS[k % FILLERS.len()]);
    }
    let mut s = SLOTS[r.below(SLOTS.len())].to_string();
    for _ in 0..1 + r.below(2) {
        s = s.replace('@', *r.pick(SLOTS));
    }
    s.replace('@', *r.pick(FILLERS))
}

/// Tokens, one after the other, each such that the text so far can go on to a program as far as the
/// reference parser can tell: it is given up only at the end of the text
fn grown(r: &mut Rng, len: usize) -> String {
    const MORE: &[&str] = &["a", "b", "of", "as", "from", "get", "set", "constructor", "1", "0b1", "'s'", "`t`", "`t${", "}`", "}u${", "/r/g", ".x", ".if", "\n", ";", ",", "(", ")", "[", "]", "{", "}"];
    let n = 1 + r.below(len.min(40));
    let mut s = String::new();
    let mut tries = 0;
    let mut k = 0;
    while k < n && tries < 400 {
        tries += 1;
        let t = match r.below(8) {
            0 => reflex::WORDS[r.below(reflex::WORDS.len())].0,
            1 => reflex::PUNCT[r.below(reflex::PUNCT.len())].0,
            _ => *r.pick(MORE),
        };
        let mut c = s.clone();
        if !c.is_empty() && t != "\n" && !t.starts_with('.') && !t.starts_with('}') {
            c.push(' ');
        }
        c.push_str(t);
        let arena = toolshed::Arena::new();
        let mut p = refparse::RefParser::new(&arena, &c);
        let ok = p.parse().is_some() || p.at_end();
        if ok {
            s = c;
            k += 1;
        }
    }
    // close what is open
    for _ in 0..60 {
        let arena = toolshed::Arena::new();
        if refparse::RefParser::new(&arena, &s).parse().is_some() {
            break;
        }
        let mut done = true;
        for t in [")", "]", "}", "{}", " a", ":", "()", " while(a)", " from 's'", "=>a", "}`"] {
            let c = format!("{}{}", s, t);
            let arena = toolshed::Arena::new();
            let mut p = refparse::RefParser::new(&arena, &c);
            if p.parse().is_some() || p.at_end() {
                s = c;
                done = false;
                break;
            }
        }
        if done {
            break;
        }
    }
    if r.chance(1, 4) {
        let k = r.below(s.len() + 1);
        if s.is_char_boundary(k) {
            s.truncate(k);
        }
    }
    s
}

const SPECIAL: &[&str] = &[
    "", " ", "\n", ";", ";;", "a", "a;", "{", "}", "(", ")", "[", "]", "switch(a){case", "switch(a){case 1:", "switch(a){", "function", "function f", "function f(",
    "function f(){", "class", "class A", "class A{", "class A extends", "class A{static", "class A{get", "class A{a(", "class A{[", "if", "if(", "if(a", "if(a)",
    "if(a)b;else", "for", "for(", "for(;", "for(;;", "for(;;)", "for(var", "for(var a", "for(var a of", "for(a in", "while", "while(", "do", "do a", "do a;while",
    "do a;while(", "try", "try{", "try{}", "try{}catch", "try{}catch(", "try{}catch(a", "try{}catch(a){", "try{}finally", "try{}finally{", "var", "var a=", "let {", "let [",
    "let {a", "let [a", "let {a:", "const a", "return", "return a", "break", "continue", "throw", "throw a", "import", "import {", "import {a", "import {a as", "import * as",
    "import a from", "import a,", "import 'a", "new", "new a(", "new.", "new.target", "a.", "a[", "a(", "a(b", "a(b,", "a?", "a?b", "a?b:", "a=", "a=>", "(a)=>", "(a,b)=>{",
    "()", "()=>", "(a,", "(...a", "(...a)=>", "...a", "[...", "[,", "{a", "({", "({a", "({a:", "({[", "({get", "({...", "`", "`a${", "`a${b", "`a${b}", "a`", "/", "/a", "/[", "+",
    "++", "a++", "!", "typeof", "void", "delete", "a:", "a:b", "label:", "debugger", "export", "super", "with", "yield", "enum", "static", "'", "\"", "0b", "0x", "1e", "..", "...", ".",
    "\\", "#", "@", "é", "→", "a→", "a.→", ".é", "/*", "//", "/**", "<!--", "{}/a/", "a\n/b/g", "\u{0}", "a\u{0}b", "({a(){", "({a", "()=>{}()", "(a)(b)", "async", "of", "=>", "**", "-a**b",
];

/// Texts that have to be rejected: a bracket too many or too few, or an
/// unterminated literal or comment behind a program
fn rejected(r: &mut Rng, i: usize) -> Option<String> {
    let p = tree::program(r, size_for(i));
    let mut toks = print::tokens(&p, None);
    if toks.iter().any(|t| t.regex || t.text.contains('`')) {
        return None;
    }
    const BR: &[&str] = &["(", ")", "[", "]", "{", "}"];
    let at: Vec<usize> = (0..toks.len()).filter(|i| BR.contains(&&toks[*i].text[..])).collect();
    match r.below(6) {
        0 | 1 if !at.is_empty() => {
            toks.remove(at[r.below(at.len())]);
        }
        2 if !at.is_empty() => {
            let k = at[r.below(at.len())];
            let old = toks[k].text.clone();
            let new = *r.pick(BR);
            if new == old {
                return None;
            }
            toks[k].text = new.to_string();
        }
        3 => {
            let k = r.below(toks.len() + 1);
            let t = print::Tok { text: r.pick(BR).to_string(), semi: false, do_semi: false, glued: false, regex: false, number: false };
            toks.insert(k, t);
        }
        _ => {
            let mut s = print::plain(&toks);
            // Behind a regular-expression position or not, these never end
            s.push_str(*r.pick(&[" ", "\n", ";", " ; "]));
            s.push_str(*r.pick(&["'abc", "\"abc", "'a\\'", "`abc", "`a${b", "`a${b}c", "/* abc", "/*", "/**", "/* *\n", "'", "\"", "`", "`\\`", "'\\", ";/abc", "=/[/]", "`${`", "/* // \n"]));
            return Some(s);
        }
    }
    Some(print::plain(&toks))
}

// ------------------------------------------------------------- generators

/// The i-th case for a property; None: nothing at this index
pub fn gen(prop: &str, i: usize, seed: u64) -> Option<Case> {
    let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
    let r = &mut rng;
    match prop {
        "L01" | "L02" | "L03" | "L04" | "L05" => {
            let aux = match i % 3 {
                0 => "0".to_string(),
                1 => "1".to_string(),
                _ => format!("{}", 2 + r.below(1 << 30)),
            };
            let alphabet = match prop {
                "L01" => ALPHA_ALL,
                "L02" => ALPHA_PUNCT,
                "L04" => ALPHA_LIT,
                _ => ALPHA_ASI,
            };
            let text = match (prop, i % 4) {
                ("L03", 0..=2) => word_case((i / 4) * 3 + i % 4).unwrap_or_else(|| soup(r, 8)),
                (_, 0..=2) => nth(alphabet, (i / 4) * 3 + i % 4)?,
                _ => soup(r, if i < 4000 { 6 } else { 30 }),
            };
            Some(case(text, aux))
        }
        "O01" => {
            let size = if i < 600 { 2 + (i / 60) as i32 } else { 3 + (i % 24) as i32 };
            let e = {
                let mut g = tree::Gen::new(r, size);
                g.ops_only = i % 4 != 0;
                g.expr()
            };
            let p = vec![S::Expr(e)];
            let toks = if i % 2 == 0 { print::tokens(&p, None) } else { print::tokens(&p, Some(r)) };
            Some(case(print::plain(&toks), tree::canon(&p)))
        }
        "O02" => op_case(i),
        "P01" | "W01" => {
            if i < SPECIAL.len() {
                return Some(case(SPECIAL[i], "any"));
            }
            if prop == "W01" && i % 3 == 0 {
                return Some(case(program_text(r, i), "any"));
            }
            if prop == "W01" && i % 3 == 1 {
                // several errors, on several lines
                let n = 1 + r.below(4);
                let bad: Vec<String> = (0..n).map(|_| r.pick(&["let ? = 1;", "a b", "}", "\"x", "for (;;", "é ü", "var 𝒳 = ;", "foo(?);", ""]).to_string()).collect();
                return Some(case(bad.join(*r.pick(&["\n", "\r\n", " ", "\n\n\n"])), "any"));
            }
            match i % 8 {
                0 => Some(case(soup(r, 12), "any")),
                1 | 2 => rejected(r, i).map(|t| case(t, "reject")),
                3 => {
                    let t = program_text(r, i);
                    let mut n = r.below(t.len() + 1);
                    while !t.is_char_boundary(n) {
                        n -= 1;
                    }
                    Some(case(&t[..n], "any"))
                }
                4 => {
                    let a = *r.pick(SPECIAL);
                    let b = *r.pick(SPECIAL);
                    let c = *r.pick(SPECIAL);
                    Some(case(format!("{}{}{}", a, b, c), "any"))
                }
                _ => {
                    let p = tree::program(r, size_for(i));
                    Some(case(mutate(r, &p), "any"))
                }
            }
        }
        "P02" => {
            let p = tree::program(r, size_for(i));
            let toks = if r.chance(1, 2) { print::tokens(&p, Some(r)) } else { print::tokens(&p, None) };
            let text = if i % 10 == 0 { print::plain(&toks) } else { print::layout(&toks, r) };
            Some(case(text, tree::canon(&p)))
        }
        "P03" => {
            if i < SPECIAL.len() {
                return Some(case(SPECIAL[i], ""));
            }
            // every second case is one of the places, the first of them all places with all that is to stand there
            if i % 2 == 1 {
                return Some(case(slots(r, i / 2), ""));
            }
            let i = i / 2;
            Some(case(
                match i % 8 {
                    0 => grown(r, 2 + i / 400),
                    1 | 2 => soup(r, 12),
                    3 => program_text(r, i),
                    4 => {
                        let a = *r.pick(SPECIAL);
                        let b = *r.pick(SPECIAL);
                        let c = *r.pick(SPECIAL);
                        format!("{} {} {}", a, b, c)
                    }
                    _ => {
                        let p = tree::program(r, size_for(i));
                        mutate(r, &p)
                    }
                },
                "",
            ))
        }
        "G01" | "G02" | "G03" | "V01" | "V02" | "V03" | "S01" | "A01" | "T01" | "N01" => {
            if prop == "G03" && i % 3 == 2 {
                let n = 2 + r.below(8);
                let mut s = String::new();
                for _ in 0..n {
                    let p = program_text(r, i);
                    if ratel::parse(&p).is_ok() {
                        s.push_str(&p);
                        s.push_str("\n;");
                    }
                    for _ in 0..r.below(3) {
                        let w: String = (0..r.below(70)).map(|_| match r.below(4) { 0 => r.pick(&["a", "\\u0041", " "]).to_string(), _ => character(r).to_string() }).collect();
                        s.push_str(&r.pick(&["'#';", "`#`;", "`#${a}#`;", "'\"#';", "import x from \"#\";", "({'#': 1});"]).replace('#', &w));
                    }
                }
                return Some(case(s, ""));
            }
            if i % 5 == 4 {
                let p = tree::program(r, size_for(i));
                return Some(case(mutate(r, &p), ""));
            }
            if i % 5 == 3 {
                return Some(case(slots(r, if i % 2 == 0 { i } else { usize::MAX }), ""));
            }
            Some(case(program_text(r, i), ""))
        }
        "E01" => {
            let n = match i {
                0..=200 => 1 + i / 40,
                _ => 1 + r.below(16),
            };
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(*r.pick(&["foo", "a", "\n", "\n", "\n\n", " ", "\t", "é", "日本", "😀", "\r\n", "\r\nx", "bar baz", "+", "}", "", "x\n", "\u{2028}"]));
            }
            if i % 16 == 15 {
                s = "\n".repeat(r.below(1200)) + &s;
            }
            let chars: Vec<usize> = s.char_indices().filter(|c| c.1 != '\n' && c.1 != '\r').map(|c| c.0).collect();
            if chars.is_empty() {
                return None;
            }
            let start = *r.pick(&chars);
            let rest: Vec<usize> = s[start..].char_indices().skip(1).map(|c| start + c.0).chain(Some(s.len())).collect();
            let end = if r.chance(1, 2) { rest[0] } else { rest[r.below(rest.len().min(8))] };
            Some(case(s, format!("{} {}", start, end)))
        }
        _ => None,
    }
}

// ----------------------------------------------------------- operator table

/// spelling, category (p prefix, i infix, a assignment, u postfix too), precedence
/// in the ECMAScript operator precedence order (0 comma .. 20)
const OPS: &[(&str, &str, u8)] = &[
    ("=", "a", 1), ("+=", "a", 1), ("-=", "a", 1), ("**=", "a", 1), ("*=", "a", 1), ("/=", "a", 1), ("%=", "a", 1), ("<<=", "a", 1),
    (">>=", "a", 1), (">>>=", "a", 1), ("&=", "a", 1), ("^=", "a", 1), ("|=", "a", 1),
    ("||", "i", 5), ("&&", "i", 6), ("|", "i", 7), ("^", "i", 8), ("&", "i", 9), ("==", "i", 10), ("!=", "i", 10), ("===", "i", 10),
    ("!==", "i", 10), ("<", "i", 11), ("<=", "i", 11), (">", "i", 11), (">=", "i", 11), ("instanceof", "i", 11), ("in", "i", 11),
    ("<<", "i", 12), (">>", "i", 12), (">>>", "i", 12), ("+", "i", 13), ("-", "i", 13), ("*", "i", 14), ("/", "i", 14), ("%", "i", 14), ("**", "i", 15),
    ("!", "p", 16), ("~", "p", 16), ("+", "p", 16), ("-", "p", 16), ("typeof", "p", 16), ("void", "p", 16), ("delete", "p", 16),
    ("++", "p", 16), ("--", "p", 16), ("++", "u", 17), ("--", "u", 17),
];

fn op_case(i: usize) -> Option<Case> {
    let n = OPS.len();
    if i >= n + n * n {
        return None;
    }
    if i < n {
        let (op, cat, _) = OPS[i];
        let (text, want) = match cat {
            "p" => (format!("{} a", op), format!("(pre{} a)", op)),
            "u" => (format!("a {}", op), format!("(post{} a)", op)),
            _ => (format!("a {} b", op), format!("({} a b)", op)),
        };
        return Some(case(text, format!("(expr {})\n", want)));
    }
    let (x, cx, px) = OPS[(i - n) / n];
    let (y, cy, py) = OPS[(i - n) % n];
    // Two operators around one operand: a x b y c
    let infix = |c: &str| c == "i" || c == "a";
    if infix(cx) && infix(cy) {
        let right = py > px || (px == py && (cx == "a" || x == "**"));
        let want = if right { format!("({} a ({} b c))", x, y) } else { format!("({} ({} a b) c)", y, x) };
        if cy == "a" && !right {
            // the left side of an assignment cannot be an operation
            return None;
        }
        if cy == "a" && cx == "i" {
            return None;
        }
        return Some(case(format!("a {} b {} c", x, y), format!("(expr {})\n", want)));
    }
    if cx == "p" && cy == "i" {
        if y == "**" {
            return None;
        }
        return Some(case(format!("{} a {} b", x, y), format!("(expr ({} (pre{} a) b))\n", y, x)));
    }
    if cx == "i" && cy == "p" {
        return Some(case(format!("a {} {} b", x, y), format!("(expr ({} a (pre{} b)))\n", x, y)));
    }
    if cx == "p" && cy == "u" && x != "++" && x != "--" {
        return Some(case(format!("{} a {}", x, y), format!("(expr (pre{} (post{} a)))\n", x, y)));
    }
    if cx == "i" && cy == "u" {
        return Some(case(format!("a {} b {}", x, y), format!("(expr ({} a (post{} b)))\n", x, y)));
    }
    None
}

fn op_tables() -> Result<(), String> {
    use ratel::ast::OperatorKind::{self, *};
    use ratel::lexer::Token;
    let all: &[OperatorKind] = &[
        FatArrow, New, Increment, Decrement, LogicalNot, BitwiseNot, Typeof, Void, Delete, Multiplication, Division, Remainder, Exponent,
        Addition, Subtraction, BitShiftLeft, BitShiftRight, UBitShiftRight, Lesser, LesserEquals, Greater, GreaterEquals, Instanceof, In,
        StrictEquality, StrictInequality, Equality, Inequality, BitwiseAnd, BitwiseXor, BitwiseOr, LogicalAnd, LogicalOr, Conditional, Assign,
        AddAssign, SubtractAssign, ExponentAssign, MultiplyAssign, DivideAssign, RemainderAssign, BSLAssign, BSRAssign, UBSRAssign, BitAndAssign,
        BitXorAssign, BitOrAssign, Spread,
    ];
    for &op in all {
        let name = canon::op_name(op);
        if op.as_str() != name {
            return Err(format!("{:?} is written {:?}, not {:?}", op, op.as_str(), name));
        }
        let token = reflex::PUNCT.iter().chain(reflex::WORDS).find(|p| p.0 == name).map(|p| p.1);
        if let Some(t) = token {
            if OperatorKind::from_token(t) != Some(op) {
                return Err(format!("from_token({:?}) is {:?}, not {:?}", t, OperatorKind::from_token(t), op));
            }
        }
        let infix = OPS.iter().any(|o| o.0 == name && (o.1 == "i" || o.1 == "a")) || op == FatArrow || op == Conditional;
        let assign = OPS.iter().any(|o| o.0 == name && o.1 == "a");
        let prefix = OPS.iter().any(|o| o.0 == name && o.1 == "p") || op == New || op == Spread;
        if op.infix() != infix || op.assignment() != assign || op.prefix() != prefix {
            return Err(format!("{:?}: prefix {} infix {} assignment {}", op, op.prefix(), op.infix(), op.assignment()));
        }
    }
    for &a in all {
        for &b in all {
            let level = |o: OperatorKind| OPS.iter().find(|x| x.0 == canon::op_name(o) && (x.1 == "i" || x.1 == "a")).map(|x| x.2);
            if let (Some(x), Some(y)) = (level(a), level(b)) {
                // Exponentiation shares the level of multiplication in this
                // table; parser and generator tell the two apart
                let mul = |o: OperatorKind| matches!(o, Exponent | Multiplication | Division | Remainder);
                if mul(a) && mul(b) && a.binding_power() == b.binding_power() {
                    continue;
                }
                if x.cmp(&y) != a.binding_power().cmp(&b.binding_power()) {
                    return Err(format!("binding power of {:?} is {}, of {:?} {}", a, a.binding_power(), b, b.binding_power()));
                }
            }
        }
    }
    for t in reflex::PUNCT.iter().chain(reflex::WORDS) {
        let has = all.iter().any(|o| canon::op_name(*o) == t.0);
        if OperatorKind::from_token(t.1).is_some() != has {
            return Err(format!("from_token({:?}) is {:?}", t.1, OperatorKind::from_token(t.1)));
        }
    }
    for t in [Token::EndOfProgram, Token::Identifier, Token::Accessor, Token::LiteralString, Token::LiteralNumber, Token::LiteralBinary,
        Token::LiteralRegEx, Token::TemplateOpen, Token::TemplateClosed, Token::UnexpectedToken, Token::UnexpectedEndOfProgram] {
        if OperatorKind::from_token(t).is_some() {
            return Err(format!("from_token({:?}) is {:?}", t, OperatorKind::from_token(t)));
        }
    }
    Ok(())
}

// ----------------------------------------------------------------- checks

fn parsed(text: &str, drop_empty: bool) -> Option<String> {
    let m = ratel::parse(text).ok()?;
    Some(canon::canon(m.body(), &Opts { drop_empty, lower: false }))
}

fn errors(text: &str) -> String {
    match ratel::parse(text) {
        Ok(_) => String::new(),
        Err(e) => format!("{:?}", e),
    }
}

fn diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("expected {} got {}", x, y);
        }
    }
    format!("expected {:?} got {:?}", a, b)
}

fn first_diff<T: PartialEq + std::fmt::Debug>(want: &[T], got: &[T]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            return Some(format!("entry {}: expected {:?}, got {:?}", i, want.get(i), got.get(i)));
        }
    }
    None
}

/// Ok(true): checked; Ok(false): the case says nothing about the property
pub fn check(prop: &str, c: &Case) -> Result<bool, String> {
    match prop {
        "L01" | "L02" | "L03" | "L04" | "L05" => {
            let n: u64 = c.aux.parse().unwrap_or(0);
            let mut r = Rng::new(n);
            let mut choice = || match n {
                0 => false,
                1 => true,
                _ => r.chance(1, 2),
            };
            match reflex::compare(&c.text, &mut choice) {
                Ok(_) => Ok(true),
                Err(bad) => match bad.iter().find(|b| b.0 == prop) {
                    Some(b) => Err(b.1.clone()),
                    None => Ok(true),
                },
            }
        }
        "O01" | "P02" | "O02" => {
            if prop == "O02" {
                op_tables()?;
            }
            match parsed(&c.text, false) {
                None => Err(format!("rejected with {}", errors(&c.text))),
                Some(got) if got != c.aux => Err(diff(&c.aux, &got)),
                Some(_) => {
                    if prop == "O02" {
                        let m = ratel::parse(&c.text).unwrap();
                        for minify in [true, false] {
                            let out = ratel_codegen::codegen(&m, minify);
                            let strip = |s: &str| s.chars().filter(|c| !c.is_whitespace() && !";()".contains(*c)).collect::<String>();
                            if strip(&out) != strip(&c.text) {
                                return Err(format!("written back as {:?}", out));
                            }
                        }
                    }
                    Ok(true)
                }
            }
        }
        "P03" => {
            let arena = toolshed::Arena::new();
            let want = refparse::RefParser::new(&arena, &c.text).parse().map(|l| canon::canon(l, &Opts { drop_empty: false, lower: false }));
            match (parsed(&c.text, false), want) {
                (None, None) => Ok(false),
                (Some(got), Some(want)) if got == want => Ok(true),
                (Some(got), Some(want)) => Err(diff(&want, &got)),
                (Some(got), None) => Err(format!("accepted, as {}", got)),
                (None, Some(want)) => Err(format!("rejected with {}, is {}", errors(&c.text), want)),
            }
        }
        "P01" => {
            let text = &c.text;
            match ratel::parse(text) {
                Ok(_) if c.aux == "reject" => Err("accepted".to_string()),
                Ok(_) => Ok(true),
                Err(es) => {
                    if es.is_empty() {
                        return Err("rejected without an error".to_string());
                    }
                    for e in &es {
                        if e.start > e.end || e.end > text.len() || !text.is_char_boundary(e.start) || !text.is_char_boundary(e.end) {
                            return Err(format!("error at {}..{} of a text of {} bytes", e.start, e.end, text.len()));
                        }
                        if &*e.raw != &text[e.start..e.end] {
                            return Err(format!("error at {}..{} quotes {:?}", e.start, e.end, e.raw));
                        }
                    }
                    Ok(true)
                }
            }
        }
        "G03" => {
            use std::sync::atomic::Ordering::SeqCst;
            crate::OVERRUN.store(false, SeqCst);
            let m = match ratel::parse(&c.text) {
                Ok(m) => m,
                Err(_) => return Ok(false),
            };
            for (mode, minify) in [("minified", true), ("pretty", false)] {
                let out = ratel_codegen::codegen(&m, minify).into_bytes();
                if let Err(e) = std::str::from_utf8(&out) {
                    return Err(format!("{} output is not UTF-8 from byte {} on: {:?}", mode, e.valid_up_to(), String::from_utf8_lossy(&out)));
                }
                drop(out);
                if crate::OVERRUN.load(SeqCst) {
                    return Err(format!("{}: written past the end of a buffer", mode));
                }
            }
            Ok(true)
        }
        "G01" | "G02" => {
            let m = match ratel::parse(&c.text) {
                Ok(m) => m,
                Err(_) => return Ok(false),
            };
            let want = canon::canon(m.body(), &Opts { drop_empty: true, lower: false });
            let min = ratel_codegen::codegen(&m, true);
            let pretty = ratel_codegen::codegen(&m, false);
            if prop == "G01" {
                for (mode, out) in [("minified", &min), ("pretty", &pretty)] {
                    match parsed(out, true) {
                        None => return Err(format!("{} output {:?} is rejected: {}", mode, out, errors(out))),
                        Some(got) if got != want => return Err(format!("{} output {:?}: {}", mode, out, diff(&want, &got))),
                        _ => {}
                    }
                }
            } else {
                let strip = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
                if strip(&min) != strip(&pretty) {
                    return Err(format!("minified {:?}, pretty {:?}", min, pretty));
                }
                match (parsed(&min, true), parsed(&pretty, true)) {
                    (Some(a), Some(b)) if a != b => return Err(format!("minified {:?}, pretty {:?}: {}", min, pretty, diff(&a, &b))),
                    (Some(_), None) => return Err(format!("minified {:?} parses, pretty {:?} does not", min, pretty)),
                    (None, Some(_)) => return Err(format!("pretty {:?} parses, minified {:?} does not", pretty, min)),
                    _ => {}
                }
            }
            Ok(true)
        }
        "V01" | "V02" | "V03" | "S01" => {
            let m = match ratel::parse(&c.text) {
                Ok(m) => m,
                Err(_) => return Ok(false),
            };
            let mut o = walk::Oracle(Vec::new());
            o.list(m.body());
            let want = o.0;
            if prop == "S01" {
                let w = walk::scopes(&want);
                let root = ratel_transformer::scope::analyze(&m);
                scope(&w, root, "root")?;
                if root.parent.is_some() {
                    return Err("the scope of the program has a parent".to_string());
                }
                return Ok(true);
            }
            let mut rec = walk::Rec(Vec::new());
            use ratel_visitor::Visitable;
            m.visit_with(&mut rec);
            let d = match prop {
                "V01" => return walk::balanced(&rec.0, &want).map(|_| true),
                "V02" => first_diff(&walk::names(&want), &walk::names(&rec.0)),
                _ => first_diff(&walk::nodes(&want), &walk::nodes(&rec.0)),
            };
            match d {
                Some(d) => Err(d),
                None => Ok(true),
            }
        }
        "E01" => {
            let mut it = c.aux.split(' ').filter_map(|n| n.parse().ok());
            match (it.next(), it.next()) {
                (Some(s), Some(e)) => crate::errfmt::check(&c.text, s, e).map(|_| true),
                _ => Ok(false),
            }
        }
        "A01" => {
            let m = match ratel::parse(&c.text) {
                Ok(m) => m,
                Err(_) => return Ok(false),
            };
            crate::estree::check(&c.text, &m)
        }
        "N01" => {
            let m = match ratel::parse(&c.text) {
                Ok(m) => m,
                Err(_) => return Ok(false),
            };
            places(&serde_json::to_value(&m).unwrap(), &c.text)?;
            Ok(true)
        }
        "W01" => {
            use crate::wasm;
            let text = &c.text;
            let rejected = |es: Vec<ratel::error::Error>| {
                let notes: Vec<String> =
                    es.iter().map(|e| ratel::error::ParseError::UnexpectedToken { start: e.start, end: e.end, source: text.clone() }.to_string()).collect();
                format!("Error: {}", notes.join("\n"))
            };
            let want: Vec<String> = match ratel::parse(text) {
                Ok(m) => vec![
                    ratel_codegen::codegen(&m, true),
                    ratel_codegen::codegen(&m, false),
                    format!("{:?}", m.body()),
                    format!("{:#?}", m.body()),
                    serde_json::to_string(&m).unwrap(),
                    serde_json::to_string_pretty(&m).unwrap(),
                ],
                Err(es) => vec![rejected(es); 6],
            };
            let got = [
                ("transform, minified", wasm::transform(text, true)),
                ("transform, pretty", wasm::transform(text, false)),
                ("generateAST, minified", wasm::generate_ast(text, true)),
                ("generateAST, pretty", wasm::generate_ast(text, false)),
                ("generateASTEstree, minified", wasm::generate_ast_estree(text, true)),
                ("generateASTEstree, pretty", wasm::generate_ast_estree(text, false)),
            ];
            for ((name, got), want) in got.iter().zip(&want) {
                if got != want {
                    return Err(format!("{}: {}", name, diff(want, got)));
                }
            }
            Ok(true)
        }
        "T01" => {
            let mut m = match ratel::parse(&c.text) {
                Ok(m) => m,
                Err(_) => return Ok(false),
            };
            let body = m.body();
            let want = canon::canon(body, &Opts { drop_empty: false, lower: true });
            let got = transformed(&mut m);
            if got != want {
                return Err(diff(&want, &got));
            }
            Ok(want != parsed(&c.text, false).unwrap_or_default())
        }
        _ => Ok(false),
    }
}

/// Does every construct have a place within the text?
fn places(v: &serde_json::Value, text: &str) -> Result<(), String> {
    use serde_json::Value::*;
    match v {
        Array(a) => a.iter().try_for_each(|x| places(x, text)),
        Object(o) => {
            if let (Some(s), Some(e)) = (o.get("start").and_then(|x| x.as_u64()), o.get("end").and_then(|x| x.as_u64())) {
                let (s, e) = (s as usize, e as usize);
                if s > e || e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
                    return Err(format!("{} at {}..{} of a text of {} bytes", o.get("type").unwrap_or(&Null), s, e, text.len()));
                }
            }
            o.values().try_for_each(|x| places(x, text))
        }
        _ => Ok(()),
    }
}

/// The tree of a module after `transform`. The module is left alone for good: `transform` borrows it for as long as its
/// syntax tree may live.
fn transformed<'a>(m: &mut ratel::Module<'a>) -> String {
    let m: &'a mut ratel::Module<'a> = unsafe { &mut *(m as *mut ratel::Module<'a>) };
    let body = m.body();
    ratel_transformer::transform(m);
    canon::canon(body, &Opts { drop_empty: false, lower: false })
}

fn scope<'a>(w: &walk::Sc, g: &'a ratel_transformer::scope::Scope<'a>, path: &str) -> Result<(), String> {
    let used: std::collections::BTreeSet<String> = g.used_refs.iter().map(|(k, _)| k.to_string()).collect();
    let declared: std::collections::BTreeSet<String> = g.declared_refs.iter().map(|(k, _)| k.to_string()).collect();
    if w.kind != g.kind {
        return Err(format!("scope {}: {:?}, expected {:?}", path, g.kind, w.kind));
    }
    if w.used != used {
        return Err(format!("scope {}: uses {:?}, expected {:?}", path, used, w.used));
    }
    if w.declared != declared {
        return Err(format!("scope {}: declares {:?}, expected {:?}", path, declared, w.declared));
    }
    if w.this != g.used_this.get() {
        return Err(format!("scope {}: used_this {}, expected {}", path, g.used_this.get(), w.this));
    }
    for (n, _) in g.used_refs.iter() {
        if !g.used_refs.contains_key(n) {
            return Err(format!("scope {}: use of {} is listed, but not found", path, n));
        }
    }
    for (n, _) in g.declared_refs.iter() {
        if !g.declared_refs.contains_key(n) {
            return Err(format!("scope {}: declaration of {} is listed, but not found", path, n));
        }
    }
    let children: Vec<_> = g.children.as_list().iter().collect();
    if children.len() != w.children.len() {
        return Err(format!("scope {}: {} scopes inside, expected {}", path, children.len(), w.children.len()));
    }
    for (i, c) in children.iter().enumerate() {
        match c.parent {
            Some(p) if p.as_usize() == g.as_usize() => {}
            _ => return Err(format!("scope {}.{}: its parent is not the scope it is a child of", path, i)),
        }
        scope(&w.children[i], c, &format!("{}.{}", path, i))?;
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: E) {}

/// How many cases a check evaluates
pub fn cases(prop: &str, tier: &str) -> usize {
    let quick = match prop {
        "L01" | "L02" | "L04" | "L05" => 300_000,
        "L03" => 200_000,
        "O01" => 30_000,
        "O02" => OPS.len() + OPS.len() * OPS.len(),
        "P01" => 30_000,
        "P03" => 100_000,
        "E01" => 30_000,
        "A01" => 6_000,
        _ => 12_000,
    };
    match tier {
        "thorough" if prop != "O02" => quick * 25,
        _ => quick,
    }
}
