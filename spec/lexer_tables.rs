// Generated by gen_lexer_tables.py from the spellings; do not edit.

/// A punctuator starts with b (or with a dot: see punct).
pub open spec fn pbyte(b: u8) -> bool { b == 33 || b == 37 || b == 38 || b == 40 || b == 41 || b == 42 || b == 43 || b == 44 || b == 45 || b == 47 || b == 58 || b == 59 || b == 60 || b == 61 || b == 62 || b == 63 || b == 91 || b == 93 || b == 94 || b == 123 || b == 124 || b == 125 || b == 126 || b == 46 }

/// The longest punctuator spelled at i and its length: the first match in a list of all punctuators
/// sorted by decreasing length. (UnexpectedToken, 0) where none is spelled.
pub open spec fn punct(s: Seq<u8>, i: int) -> (Token, int) {
    if pbyte(s[i]) { longest(s, i) } else { (Token::UnexpectedToken, 0) }
}
pub open spec fn longest(s: Seq<u8>, i: int) -> (Token, int) {
    if s[i] == 62 && s[i+1] == 62 && s[i+2] == 62 && s[i+3] == 61 { (Token::OperatorUBSRAssign, 4) } // >>>=
    else if s[i] == 61 && s[i+1] == 61 && s[i+2] == 61 { (Token::OperatorStrictEquality, 3) } // ===
    else if s[i] == 33 && s[i+1] == 61 && s[i+2] == 61 { (Token::OperatorStrictInequality, 3) } // !==
    else if s[i] == 62 && s[i+1] == 62 && s[i+2] == 62 { (Token::OperatorUBitShiftRight, 3) } // >>>
    else if s[i] == 60 && s[i+1] == 60 && s[i+2] == 61 { (Token::OperatorBSLAssign, 3) } // <<=
    else if s[i] == 62 && s[i+1] == 62 && s[i+2] == 61 { (Token::OperatorBSRAssign, 3) } // >>=
    else if s[i] == 42 && s[i+1] == 42 && s[i+2] == 61 { (Token::OperatorExponentAssign, 3) } // **=
    else if s[i] == 46 && s[i+1] == 46 && s[i+2] == 46 { (Token::OperatorSpread, 3) } // ...
    else if s[i] == 61 && s[i+1] == 62 { (Token::OperatorFatArrow, 2) } // =>
    else if s[i] == 61 && s[i+1] == 61 { (Token::OperatorEquality, 2) } // ==
    else if s[i] == 33 && s[i+1] == 61 { (Token::OperatorInequality, 2) } // !=
    else if s[i] == 60 && s[i+1] == 61 { (Token::OperatorLesserEquals, 2) } // <=
    else if s[i] == 62 && s[i+1] == 61 { (Token::OperatorGreaterEquals, 2) } // >=
    else if s[i] == 43 && s[i+1] == 43 { (Token::OperatorIncrement, 2) } // ++
    else if s[i] == 45 && s[i+1] == 45 { (Token::OperatorDecrement, 2) } // --
    else if s[i] == 60 && s[i+1] == 60 { (Token::OperatorBitShiftLeft, 2) } // <<
    else if s[i] == 62 && s[i+1] == 62 { (Token::OperatorBitShiftRight, 2) } // >>
    else if s[i] == 38 && s[i+1] == 38 { (Token::OperatorLogicalAnd, 2) } // &&
    else if s[i] == 124 && s[i+1] == 124 { (Token::OperatorLogicalOr, 2) } // ||
    else if s[i] == 42 && s[i+1] == 42 { (Token::OperatorExponent, 2) } // **
    else if s[i] == 43 && s[i+1] == 61 { (Token::OperatorAddAssign, 2) } // +=
    else if s[i] == 45 && s[i+1] == 61 { (Token::OperatorSubtractAssign, 2) } // -=
    else if s[i] == 42 && s[i+1] == 61 { (Token::OperatorMultiplyAssign, 2) } // *=
    else if s[i] == 47 && s[i+1] == 61 { (Token::OperatorDivideAssign, 2) } // /=
    else if s[i] == 37 && s[i+1] == 61 { (Token::OperatorRemainderAssign, 2) } // %=
    else if s[i] == 38 && s[i+1] == 61 { (Token::OperatorBitAndAssign, 2) } // &=
    else if s[i] == 124 && s[i+1] == 61 { (Token::OperatorBitOrAssign, 2) } // |=
    else if s[i] == 94 && s[i+1] == 61 { (Token::OperatorBitXorAssign, 2) } // ^=
    else if s[i] == 59 { (Token::Semicolon, 1) } // ;
    else if s[i] == 58 { (Token::Colon, 1) } // :
    else if s[i] == 44 { (Token::Comma, 1) } // ,
    else if s[i] == 40 { (Token::ParenOpen, 1) } // (
    else if s[i] == 41 { (Token::ParenClose, 1) } // )
    else if s[i] == 91 { (Token::BracketOpen, 1) } // [
    else if s[i] == 93 { (Token::BracketClose, 1) } // ]
    else if s[i] == 123 { (Token::BraceOpen, 1) } // {
    else if s[i] == 125 { (Token::BraceClose, 1) } // }
    else if s[i] == 61 { (Token::OperatorAssign, 1) } // =
    else if s[i] == 33 { (Token::OperatorLogicalNot, 1) } // !
    else if s[i] == 60 { (Token::OperatorLesser, 1) } // <
    else if s[i] == 62 { (Token::OperatorGreater, 1) } // >
    else if s[i] == 63 { (Token::OperatorConditional, 1) } // ?
    else if s[i] == 126 { (Token::OperatorBitwiseNot, 1) } // ~
    else if s[i] == 94 { (Token::OperatorBitwiseXor, 1) } // ^
    else if s[i] == 38 { (Token::OperatorBitwiseAnd, 1) } // &
    else if s[i] == 124 { (Token::OperatorBitwiseOr, 1) } // |
    else if s[i] == 43 { (Token::OperatorAddition, 1) } // +
    else if s[i] == 45 { (Token::OperatorSubtraction, 1) } // -
    else if s[i] == 42 { (Token::OperatorMultiplication, 1) } // *
    else if s[i] == 47 { (Token::OperatorDivision, 1) } // /
    else if s[i] == 37 { (Token::OperatorRemainder, 1) } // %
    else { (Token::UnexpectedToken, 0) }
}

/// The token for the word spelled by s[i..e].
pub open spec fn kw(s: Seq<u8>, i: int, e: int) -> Token {
    if s[i] == 98 { kw_b(s, i, e) }
    else if s[i] == 99 { kw_c(s, i, e) }
    else if s[i] == 100 { kw_d(s, i, e) }
    else if s[i] == 101 { kw_e(s, i, e) }
    else if s[i] == 102 { kw_f(s, i, e) }
    else if s[i] == 105 { kw_i(s, i, e) }
    else if s[i] == 108 { kw_l(s, i, e) }
    else if s[i] == 110 { kw_n(s, i, e) }
    else if s[i] == 112 { kw_p(s, i, e) }
    else if s[i] == 114 { kw_r(s, i, e) }
    else if s[i] == 115 { kw_s(s, i, e) }
    else if s[i] == 116 { kw_t(s, i, e) }
    else if s[i] == 117 { kw_u(s, i, e) }
    else if s[i] == 118 { kw_v(s, i, e) }
    else if s[i] == 119 { kw_w(s, i, e) }
    else if s[i] == 121 { kw_y(s, i, e) }
    else { Token::Identifier }
}
pub open spec fn kw_b(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 5 && s[i] == 98 && s[i+1] == 114 && s[i+2] == 101 && s[i+3] == 97 && s[i+4] == 107 { Token::Break } // break
    else { Token::Identifier }
}
pub open spec fn kw_c(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 4 && s[i] == 99 && s[i+1] == 97 && s[i+2] == 115 && s[i+3] == 101 { Token::Case } // case
    else if e == i + 5 && s[i] == 99 && s[i+1] == 97 && s[i+2] == 116 && s[i+3] == 99 && s[i+4] == 104 { Token::Catch } // catch
    else if e == i + 5 && s[i] == 99 && s[i+1] == 108 && s[i+2] == 97 && s[i+3] == 115 && s[i+4] == 115 { Token::Class } // class
    else if e == i + 5 && s[i] == 99 && s[i+1] == 111 && s[i+2] == 110 && s[i+3] == 115 && s[i+4] == 116 { Token::DeclarationConst } // const
    else if e == i + 8 && s[i] == 99 && s[i+1] == 111 && s[i+2] == 110 && s[i+3] == 116 && s[i+4] == 105 && s[i+5] == 110 && s[i+6] == 117 && s[i+7] == 101 { Token::Continue } // continue
    else { Token::Identifier }
}
pub open spec fn kw_d(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 8 && s[i] == 100 && s[i+1] == 101 && s[i+2] == 98 && s[i+3] == 117 && s[i+4] == 103 && s[i+5] == 103 && s[i+6] == 101 && s[i+7] == 114 { Token::Debugger } // debugger
    else if e == i + 7 && s[i] == 100 && s[i+1] == 101 && s[i+2] == 102 && s[i+3] == 97 && s[i+4] == 117 && s[i+5] == 108 && s[i+6] == 116 { Token::Default } // default
    else if e == i + 6 && s[i] == 100 && s[i+1] == 101 && s[i+2] == 108 && s[i+3] == 101 && s[i+4] == 116 && s[i+5] == 101 { Token::OperatorDelete } // delete
    else if e == i + 2 && s[i] == 100 && s[i+1] == 111 { Token::Do } // do
    else { Token::Identifier }
}
pub open spec fn kw_e(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 4 && s[i] == 101 && s[i+1] == 108 && s[i+2] == 115 && s[i+3] == 101 { Token::Else } // else
    else if e == i + 4 && s[i] == 101 && s[i+1] == 110 && s[i+2] == 117 && s[i+3] == 109 { Token::ReservedEnum } // enum
    else if e == i + 6 && s[i] == 101 && s[i+1] == 120 && s[i+2] == 112 && s[i+3] == 111 && s[i+4] == 114 && s[i+5] == 116 { Token::Export } // export
    else if e == i + 7 && s[i] == 101 && s[i+1] == 120 && s[i+2] == 116 && s[i+3] == 101 && s[i+4] == 110 && s[i+5] == 100 && s[i+6] == 115 { Token::Extends } // extends
    else { Token::Identifier }
}
pub open spec fn kw_f(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 5 && s[i] == 102 && s[i+1] == 97 && s[i+2] == 108 && s[i+3] == 115 && s[i+4] == 101 { Token::LiteralFalse } // false
    else if e == i + 7 && s[i] == 102 && s[i+1] == 105 && s[i+2] == 110 && s[i+3] == 97 && s[i+4] == 108 && s[i+5] == 108 && s[i+6] == 121 { Token::Finally } // finally
    else if e == i + 3 && s[i] == 102 && s[i+1] == 111 && s[i+2] == 114 { Token::For } // for
    else if e == i + 8 && s[i] == 102 && s[i+1] == 117 && s[i+2] == 110 && s[i+3] == 99 && s[i+4] == 116 && s[i+5] == 105 && s[i+6] == 111 && s[i+7] == 110 { Token::Function } // function
    else { Token::Identifier }
}
pub open spec fn kw_i(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 2 && s[i] == 105 && s[i+1] == 102 { Token::If } // if
    else if e == i + 10 && s[i] == 105 && s[i+1] == 109 && s[i+2] == 112 && s[i+3] == 108 && s[i+4] == 101 && s[i+5] == 109 && s[i+6] == 101 && s[i+7] == 110 && s[i+8] == 116 && s[i+9] == 115 { Token::ReservedImplements } // implements
    else if e == i + 6 && s[i] == 105 && s[i+1] == 109 && s[i+2] == 112 && s[i+3] == 111 && s[i+4] == 114 && s[i+5] == 116 { Token::Import } // import
    else if e == i + 2 && s[i] == 105 && s[i+1] == 110 { Token::OperatorIn } // in
    else if e == i + 10 && s[i] == 105 && s[i+1] == 110 && s[i+2] == 115 && s[i+3] == 116 && s[i+4] == 97 && s[i+5] == 110 && s[i+6] == 99 && s[i+7] == 101 && s[i+8] == 111 && s[i+9] == 102 { Token::OperatorInstanceof } // instanceof
    else if e == i + 9 && s[i] == 105 && s[i+1] == 110 && s[i+2] == 116 && s[i+3] == 101 && s[i+4] == 114 && s[i+5] == 102 && s[i+6] == 97 && s[i+7] == 99 && s[i+8] == 101 { Token::ReservedInterface } // interface
    else { Token::Identifier }
}
pub open spec fn kw_l(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 3 && s[i] == 108 && s[i+1] == 101 && s[i+2] == 116 { Token::DeclarationLet } // let
    else { Token::Identifier }
}
pub open spec fn kw_n(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 3 && s[i] == 110 && s[i+1] == 101 && s[i+2] == 119 { Token::OperatorNew } // new
    else if e == i + 4 && s[i] == 110 && s[i+1] == 117 && s[i+2] == 108 && s[i+3] == 108 { Token::LiteralNull } // null
    else { Token::Identifier }
}
pub open spec fn kw_p(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 7 && s[i] == 112 && s[i+1] == 97 && s[i+2] == 99 && s[i+3] == 107 && s[i+4] == 97 && s[i+5] == 103 && s[i+6] == 101 { Token::ReservedPackage } // package
    else if e == i + 7 && s[i] == 112 && s[i+1] == 114 && s[i+2] == 105 && s[i+3] == 118 && s[i+4] == 97 && s[i+5] == 116 && s[i+6] == 101 { Token::ReservedPrivate } // private
    else if e == i + 9 && s[i] == 112 && s[i+1] == 114 && s[i+2] == 111 && s[i+3] == 116 && s[i+4] == 101 && s[i+5] == 99 && s[i+6] == 116 && s[i+7] == 101 && s[i+8] == 100 { Token::ReservedProtected } // protected
    else if e == i + 6 && s[i] == 112 && s[i+1] == 117 && s[i+2] == 98 && s[i+3] == 108 && s[i+4] == 105 && s[i+5] == 99 { Token::ReservedPublic } // public
    else { Token::Identifier }
}
pub open spec fn kw_r(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 6 && s[i] == 114 && s[i+1] == 101 && s[i+2] == 116 && s[i+3] == 117 && s[i+4] == 114 && s[i+5] == 110 { Token::Return } // return
    else { Token::Identifier }
}
pub open spec fn kw_s(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 6 && s[i] == 115 && s[i+1] == 116 && s[i+2] == 97 && s[i+3] == 116 && s[i+4] == 105 && s[i+5] == 99 { Token::Static } // static
    else if e == i + 5 && s[i] == 115 && s[i+1] == 117 && s[i+2] == 112 && s[i+3] == 101 && s[i+4] == 114 { Token::Super } // super
    else if e == i + 6 && s[i] == 115 && s[i+1] == 119 && s[i+2] == 105 && s[i+3] == 116 && s[i+4] == 99 && s[i+5] == 104 { Token::Switch } // switch
    else { Token::Identifier }
}
pub open spec fn kw_t(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 4 && s[i] == 116 && s[i+1] == 104 && s[i+2] == 105 && s[i+3] == 115 { Token::This } // this
    else if e == i + 5 && s[i] == 116 && s[i+1] == 104 && s[i+2] == 114 && s[i+3] == 111 && s[i+4] == 119 { Token::Throw } // throw
    else if e == i + 4 && s[i] == 116 && s[i+1] == 114 && s[i+2] == 117 && s[i+3] == 101 { Token::LiteralTrue } // true
    else if e == i + 3 && s[i] == 116 && s[i+1] == 114 && s[i+2] == 121 { Token::Try } // try
    else if e == i + 6 && s[i] == 116 && s[i+1] == 121 && s[i+2] == 112 && s[i+3] == 101 && s[i+4] == 111 && s[i+5] == 102 { Token::OperatorTypeof } // typeof
    else { Token::Identifier }
}
pub open spec fn kw_u(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 9 && s[i] == 117 && s[i+1] == 110 && s[i+2] == 100 && s[i+3] == 101 && s[i+4] == 102 && s[i+5] == 105 && s[i+6] == 110 && s[i+7] == 101 && s[i+8] == 100 { Token::LiteralUndefined } // undefined
    else { Token::Identifier }
}
pub open spec fn kw_v(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 3 && s[i] == 118 && s[i+1] == 97 && s[i+2] == 114 { Token::DeclarationVar } // var
    else if e == i + 4 && s[i] == 118 && s[i+1] == 111 && s[i+2] == 105 && s[i+3] == 100 { Token::OperatorVoid } // void
    else { Token::Identifier }
}
pub open spec fn kw_w(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 5 && s[i] == 119 && s[i+1] == 104 && s[i+2] == 105 && s[i+3] == 108 && s[i+4] == 101 { Token::While } // while
    else if e == i + 4 && s[i] == 119 && s[i+1] == 105 && s[i+2] == 116 && s[i+3] == 104 { Token::With } // with
    else { Token::Identifier }
}
pub open spec fn kw_y(s: Seq<u8>, i: int, e: int) -> Token {
    if e == i + 5 && s[i] == 121 && s[i+1] == 105 && s[i+2] == 101 && s[i+3] == 108 && s[i+4] == 100 { Token::Yield } // yield
    else { Token::Identifier }
}
