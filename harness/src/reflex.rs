//! A reference reading of JavaScript tokens, written from the language
//! grammar over characters, and the comparison of ratel's lexer with it.
use ratel::lexer::Token::{self, *};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Semi {
    Explicit,
    Implicit,
    None,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    End,
    Punct,
    Word,
    Literal,
    Comment,
    Other,
}

#[derive(Clone, Debug)]
pub struct Ref {
    pub token: Token,
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
    pub semi: Semi,
    /// Start and end of the template chunk, or of the name after a dot
    pub inner: Option<(usize, usize)>,
}

/// One request to the lexer
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ask {
    Next,
    Template,
    Regex,
}

pub const PUNCT: &[(&str, Token)] = &[
    (";", Semicolon), (":", Colon), (",", Comma), ("(", ParenOpen), (")", ParenClose),
    ("[", BracketOpen), ("]", BracketClose), ("{", BraceOpen), ("}", BraceClose),
    ("=>", OperatorFatArrow), ("++", OperatorIncrement), ("--", OperatorDecrement),
    ("!", OperatorLogicalNot), ("~", OperatorBitwiseNot), ("*", OperatorMultiplication),
    ("/", OperatorDivision), ("%", OperatorRemainder), ("**", OperatorExponent),
    ("+", OperatorAddition), ("-", OperatorSubtraction), ("<<", OperatorBitShiftLeft),
    (">>", OperatorBitShiftRight), (">>>", OperatorUBitShiftRight), ("<", OperatorLesser),
    ("<=", OperatorLesserEquals), (">", OperatorGreater), (">=", OperatorGreaterEquals),
    ("===", OperatorStrictEquality), ("!==", OperatorStrictInequality), ("==", OperatorEquality),
    ("!=", OperatorInequality), ("&", OperatorBitwiseAnd), ("^", OperatorBitwiseXor),
    ("|", OperatorBitwiseOr), ("&&", OperatorLogicalAnd), ("||", OperatorLogicalOr),
    ("?", OperatorConditional), ("=", OperatorAssign), ("+=", OperatorAddAssign),
    ("-=", OperatorSubtractAssign), ("**=", OperatorExponentAssign), ("*=", OperatorMultiplyAssign),
    ("/=", OperatorDivideAssign), ("%=", OperatorRemainderAssign), ("<<=", OperatorBSLAssign),
    (">>=", OperatorBSRAssign), (">>>=", OperatorUBSRAssign), ("&=", OperatorBitAndAssign),
    ("^=", OperatorBitXorAssign), ("|=", OperatorBitOrAssign), ("...", OperatorSpread),
];

pub const WORDS: &[(&str, Token)] = &[
    ("break", Break), ("do", Do), ("case", Case), ("else", Else), ("catch", Catch),
    ("export", Export), ("class", Class), ("extends", Extends), ("return", Return),
    ("while", While), ("finally", Finally), ("super", Super), ("with", With),
    ("continue", Continue), ("for", For), ("switch", Switch), ("yield", Yield),
    ("debugger", Debugger), ("function", Function), ("this", This), ("default", Default),
    ("if", If), ("throw", Throw), ("import", Import), ("try", Try), ("static", Static),
    ("true", LiteralTrue), ("false", LiteralFalse), ("null", LiteralNull),
    ("undefined", LiteralUndefined), ("enum", ReservedEnum), ("implements", ReservedImplements),
    ("package", ReservedPackage), ("protected", ReservedProtected),
    ("interface", ReservedInterface), ("private", ReservedPrivate), ("public", ReservedPublic),
    ("new", OperatorNew), ("typeof", OperatorTypeof), ("void", OperatorVoid),
    ("delete", OperatorDelete), ("in", OperatorIn), ("instanceof", OperatorInstanceof),
    ("var", DeclarationVar), ("let", DeclarationLet), ("const", DeclarationConst),
];

pub struct RefLexer {
    chars: Vec<(usize, char)>,
    len: usize,
    i: usize,
}

fn word_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '$' || c == '\\' || !c.is_ascii()
}

fn word_start(c: char) -> bool {
    if c.is_ascii() {
        word_char(c) && !c.is_ascii_digit()
    } else {
        c.is_alphanumeric()
    }
}

fn blank(c: char) -> bool {
    c <= ' '
}

impl RefLexer {
    /// A NUL character ends the text
    pub fn new(text: &str) -> RefLexer {
        let text = &text[..text.find('\0').unwrap_or(text.len())];
        RefLexer { chars: text.char_indices().collect(), len: text.len(), i: 0 }
    }

    pub fn text_len(&self) -> usize {
        self.len
    }

    fn at(&self, k: usize) -> Option<char> {
        self.chars.get(self.i + k).map(|c| c.1)
    }

    fn pos(&self, i: usize) -> usize {
        self.chars.get(i).map_or(self.len, |c| c.0)
    }

    fn starts(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, c)| self.at(k) == Some(c))
    }

    /// Skip a comment. None: no comment here, Some(false): not closed
    fn comment(&mut self, broke: &mut bool) -> Option<bool> {
        if self.starts("//") {
            while self.at(0).map_or(false, |c| c != '\n') {
                self.i += 1;
            }
            Some(true)
        } else if self.starts("/*") {
            self.i += 2;
            while !self.starts("*/") {
                match self.at(0) {
                    None => return Some(false),
                    Some('\n') => *broke = true,
                    _ => {}
                }
                self.i += 1;
            }
            self.i += 2;
            Some(true)
        } else {
            None
        }
    }

    /// The digits of a number, false if there is none
    fn digits(&mut self, radix: u32) -> bool {
        let from = self.i;
        while self.at(0).map_or(false, |c| c.is_digit(radix)) {
            self.i += 1;
        }
        self.i > from
    }

    fn exponent(&mut self) -> bool {
        if matches!(self.at(0), Some('e') | Some('E')) {
            self.i += 1;
            if matches!(self.at(0), Some('+') | Some('-')) {
                self.i += 1;
            }
            self.digits(10)
        } else {
            true
        }
    }

    /// The chunk of a template literal that starts here
    fn chunk(&mut self) -> (Token, Option<(usize, usize)>) {
        let from = self.i;
        loop {
            match self.at(0) {
                None => return (UnexpectedEndOfProgram, None),
                Some('`') => {
                    let inner = (self.pos(from), self.pos(self.i));
                    self.i += 1;
                    return (TemplateClosed, Some(inner));
                }
                Some('$') if self.at(1) == Some('{') => {
                    let inner = (self.pos(from), self.pos(self.i));
                    self.i += 2;
                    return (TemplateOpen, Some(inner));
                }
                Some('\\') => {
                    self.i += 1;
                    if self.at(0).is_none() {
                        return (UnexpectedEndOfProgram, None);
                    }
                    self.i += 1;
                }
                _ => self.i += 1,
            }
        }
    }

    fn name(&mut self) -> bool {
        match self.at(0) {
            Some(c) if word_start(c) => {
                while self.at(0).map_or(false, word_char) {
                    self.i += 1;
                }
                true
            }
            Some(c) if !c.is_ascii() => {
                self.i += 1;
                false
            }
            _ => false,
        }
    }

    pub fn next(&mut self) -> Ref {
        let mut broke = false;
        let start;
        loop {
            match self.at(0) {
                Some(c) if blank(c) => {
                    broke |= c == '\n';
                    self.i += 1;
                }
                _ => {
                    let from = self.i;
                    match self.comment(&mut broke) {
                        Some(true) => {}
                        Some(false) => {
                            return Ref {
                                token: UnexpectedEndOfProgram,
                                kind: Kind::Comment,
                                start: self.pos(from),
                                end: self.len,
                                semi: if broke { Semi::Implicit } else { Semi::None },
                                inner: None,
                            }
                        }
                        None => {
                            start = from;
                            break;
                        }
                    }
                }
            }
        }

        let mut semi = if broke { Semi::Implicit } else { Semi::None };
        let mut inner = None;
        let (token, kind) = match self.at(0) {
            None => {
                semi = Semi::Implicit;
                (EndOfProgram, Kind::End)
            }
            Some(q) if q == '"' || q == '\'' => {
                self.i += 1;
                let token = loop {
                    match self.at(0) {
                        None => break UnexpectedEndOfProgram,
                        Some(c) if c == q => {
                            self.i += 1;
                            break LiteralString;
                        }
                        Some('\\') => {
                            self.i += 1;
                            if self.at(0).is_none() {
                                break UnexpectedEndOfProgram;
                            }
                            self.i += 1;
                        }
                        _ => self.i += 1,
                    }
                };
                (token, Kind::Literal)
            }
            Some('`') => {
                self.i += 1;
                let (token, chunk) = self.chunk();
                inner = chunk;
                (token, Kind::Literal)
            }
            Some(d) if d.is_ascii_digit() => {
                let radix = match (d, self.at(1)) {
                    ('0', Some('b')) | ('0', Some('B')) => 2,
                    ('0', Some('o')) | ('0', Some('O')) => 8,
                    ('0', Some('x')) | ('0', Some('X')) => 16,
                    _ => 10,
                };
                let good = if radix == 10 {
                    self.digits(10);
                    if self.at(0) == Some('.') {
                        self.i += 1;
                        self.digits(10);
                    }
                    self.exponent()
                } else {
                    self.i += 2;
                    self.digits(radix)
                };
                (if !good { UnexpectedToken } else if radix == 2 { LiteralBinary } else { LiteralNumber }, Kind::Literal)
            }
            Some('.') if self.at(1).map_or(false, |c| c.is_ascii_digit()) => {
                self.i += 1;
                self.digits(10);
                (if self.exponent() { LiteralNumber } else { UnexpectedToken }, Kind::Literal)
            }
            Some('.') if self.at(1) != Some('.') => {
                // A property name, with blank space in between or not
                self.i += 1;
                let mut x = false;
                let token = loop {
                    match self.at(0) {
                        Some(c) if blank(c) => self.i += 1,
                        None => break UnexpectedEndOfProgram,
                        _ => match self.comment(&mut x) {
                            Some(_) => {}
                            None => {
                                let from = self.i;
                                if !self.name() {
                                    break UnexpectedToken;
                                }
                                inner = Some((self.pos(from), self.pos(self.i)));
                                break Accessor;
                            }
                        },
                    }
                };
                (token, Kind::Word)
            }
            Some(c) if word_char(c) => {
                let from = self.i;
                if self.name() {
                    let w: String = self.chars[from..self.i].iter().map(|c| c.1).collect();
                    (WORDS.iter().find(|k| k.0 == w).map_or(Identifier, |k| k.1), Kind::Word)
                } else {
                    (UnexpectedToken, Kind::Other)
                }
            }
            Some(c) => {
                let best = PUNCT.iter().filter(|p| self.starts(p.0)).max_by_key(|p| p.0.len());
                match best {
                    Some(&(s, token)) => {
                        self.i += s.len();
                        if token == Semicolon {
                            semi = Semi::Explicit;
                        }
                        if token == ParenClose || token == BraceClose {
                            semi = Semi::Implicit;
                        }
                        (token, Kind::Punct)
                    }
                    None => {
                        self.i += if c == '.' { 2 } else { 1 };
                        (UnexpectedToken, if c == '.' { Kind::Punct } else { Kind::Other })
                    }
                }
            }
        };
        Ref { token, kind, start: self.pos(start), end: self.pos(self.i), semi, inner }
    }

    /// Behind a closing brace that ends an expression in a template
    pub fn template(&mut self, last: &Ref) -> Ref {
        let (token, inner) = self.chunk();
        Ref { token, kind: Kind::Literal, end: self.pos(self.i), inner, ..last.clone() }
    }

    /// Behind a slash that starts a regular expression
    pub fn regex(&mut self, last: &Ref) -> Ref {
        let mut class = false;
        let token = loop {
            match self.at(0) {
                None => break UnexpectedEndOfProgram,
                Some('\n') => {
                    self.i += 1;
                    break UnexpectedToken;
                }
                Some('\\') => {
                    self.i += 1;
                    match self.at(0) {
                        None => break UnexpectedEndOfProgram,
                        _ => self.i += 1,
                    }
                }
                Some('[') => {
                    class = true;
                    self.i += 1;
                }
                Some(']') => {
                    class = false;
                    self.i += 1;
                }
                Some('/') => {
                    self.i += 1;
                    if !class {
                        while matches!(self.at(0), Some('g') | Some('i') | Some('m') | Some('u') | Some('y')) {
                            self.i += 1;
                        }
                        break LiteralRegEx;
                    }
                }
                _ => self.i += 1,
            }
        };
        Ref { token, kind: Kind::Literal, end: self.pos(self.i), inner: None, ..last.clone() }
    }
}

fn semi_of(lex: &ratel::lexer::Lexer) -> Semi {
    use ratel::lexer::Asi;
    match lex.asi() {
        Asi::ExplicitSemicolon => Semi::Explicit,
        Asi::ImplicitSemicolon => Semi::Implicit,
        Asi::NoSemicolon => Semi::None,
    }
}

/// Drives ratel's lexer over the text, and reports the first deviation as
/// the property it breaks and a description. `choice` decides when the
/// requests that only a parser makes are issued.
pub fn compare(text: &str, choice: &mut dyn FnMut() -> bool) -> Result<usize, Vec<(&'static str, String)>> {
    let arena = toolshed::Arena::new();
    let mut lex = ratel::lexer::Lexer::new(&arena, text);
    let mut r = RefLexer::new(text);
    let len = r.text_len();
    let body = &text[..len];
    let mut bad = Vec::new();
    let mut last_end = 0;
    let mut want = r.next();
    let mut ask = Ask::Next;
    let mut count = 0;
    let mut ends = 0;
    loop {
        let (start, end) = lex.loc();
        let (start, end) = (start as usize, end as usize);
        let got = format!("{:?} at {}..{}", lex.token, start, end);
        let exp = format!("{:?} at {}..{}", want.token, want.start, want.end);
        count += 1;

        // Memory safety and progress
        if start > end || end > len {
            bad.push(("L01", format!("token {} reaches beyond the text of {} bytes", got, len)));
            return Err(bad);
        }
        if !body.is_char_boundary(start) || !body.is_char_boundary(end) {
            bad.push(("L01", format!("token {} is not on character boundaries", got)));
            return Err(bad);
        }
        if ask == Ask::Next && start < last_end {
            bad.push(("L01", format!("token {} overlaps the previous one, ending at {}", got, last_end)));
        }
        if ask == Ask::Next && end == last_end && end < len && count > 1 {
            bad.push(("L01", format!("token {} consumes nothing", got)));
            return Err(bad);
        }
        if lex.token == EndOfProgram && end != len {
            bad.push(("L01", format!("end of program reported at {}, the text has {} bytes", end, len)));
        }
        if end <= len && start <= end && lex.token_as_str() != &body[start..end] {
            bad.push(("L01", format!("token {} handed out as {:?}", got, lex.token_as_str())));
        }
        if want.token == UnexpectedEndOfProgram && lex.token != UnexpectedEndOfProgram {
            bad.push(("L01", format!("expected {}, got {}", exp, got)));
        }
        if want.token == EndOfProgram && ends > 0 && (lex.token != EndOfProgram || start != want.start || end != want.end) {
            bad.push(("L01", format!("behind the end expected {}, got {}", exp, got)));
        }

        // Extent and kind
        let same_end = end == want.end || (want.token == UnexpectedToken && lex.token == UnexpectedToken && end > start);
        let prop = match want.kind {
            Kind::Punct => "L02",
            Kind::Word => "L03",
            Kind::Literal | Kind::Comment => "L04",
            Kind::Other => "L02",
            Kind::End => "L04",
        };
        if start != want.start {
            // Blank space and comments are not skipped as they should
            bad.push(("L04", format!("expected {}, got {}", exp, got)));
        } else if lex.token != want.token || !same_end {
            bad.push((prop, format!("expected {}, got {}", exp, got)));
        }
        if !bad.is_empty() {
            return Err(bad);
        }
        if let Some((s, e)) = want.inner {
            let inner = &body[s..e];
            if want.token == Accessor {
                if lex.accessor_as_str() != inner {
                    bad.push(("L03", format!("property name {:?}, expected {:?}", lex.accessor_as_str(), inner)));
                }
            } else if lex.quasi != inner {
                bad.push(("L04", format!("template chunk {:?}, expected {:?}", lex.quasi, inner)));
            }
        }
        if ask == Ask::Next && semi_of(&lex) != want.semi {
            bad.push(("L05", format!("semicolon before {}: {:?}, expected {:?}", exp, semi_of(&lex), want.semi)));
        }
        if !bad.is_empty() {
            return Err(bad);
        }

        if end != want.end {
            // How far an error token reaches is not pinned down; the rest
            // is compared from where the lexer stands
            r.i = r.chars.iter().position(|c| c.0 == end).unwrap_or(r.chars.len());
        }
        last_end = end;
        if want.token == EndOfProgram {
            ends += 1;
            if ends > 3 {
                return Ok(count);
            }
        }
        ask = match lex.token {
            BraceClose if choice() => Ask::Template,
            TemplateOpen => Ask::Next,
            OperatorDivision if choice() => Ask::Regex,
            _ => Ask::Next,
        };
        match ask {
            Ask::Next => {
                lex.consume();
                want = r.next();
            }
            Ask::Template => {
                lex.read_template_kind();
                want = r.template(&want);
            }
            Ask::Regex => {
                let s = lex.read_regular_expression();
                let before = want.clone();
                want = r.regex(&before);
                let exp = if want.token == LiteralRegEx { &body[want.start..want.end] } else { "" };
                if s != exp {
                    bad.push(("L04", format!("regular expression {:?}, expected {:?}", s, exp)));
                    return Err(bad);
                }
            }
        }
    }
}
