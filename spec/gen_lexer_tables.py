#!/usr/bin/env python3
"""Writes lexer_tables.rs: JavaScript's punctuators and reserved words (as supported), from their spellings."""
P = """
>>>= OperatorUBSRAssign
=== OperatorStrictEquality
!== OperatorStrictInequality
>>> OperatorUBitShiftRight
<<= OperatorBSLAssign
>>= OperatorBSRAssign
**= OperatorExponentAssign
... OperatorSpread
=> OperatorFatArrow
== OperatorEquality
!= OperatorInequality
<= OperatorLesserEquals
>= OperatorGreaterEquals
++ OperatorIncrement
-- OperatorDecrement
<< OperatorBitShiftLeft
>> OperatorBitShiftRight
&& OperatorLogicalAnd
|| OperatorLogicalOr
** OperatorExponent
+= OperatorAddAssign
-= OperatorSubtractAssign
*= OperatorMultiplyAssign
/= OperatorDivideAssign
%= OperatorRemainderAssign
&= OperatorBitAndAssign
|= OperatorBitOrAssign
^= OperatorBitXorAssign
; Semicolon
: Colon
, Comma
( ParenOpen
) ParenClose
[ BracketOpen
] BracketClose
{ BraceOpen
} BraceClose
= OperatorAssign
! OperatorLogicalNot
< OperatorLesser
> OperatorGreater
? OperatorConditional
~ OperatorBitwiseNot
^ OperatorBitwiseXor
& OperatorBitwiseAnd
| OperatorBitwiseOr
+ OperatorAddition
- OperatorSubtraction
* OperatorMultiplication
/ OperatorDivision
% OperatorRemainder
""".split()
P = list(zip(P[::2], P[1::2]))
assert [len(p) for p, _ in P] == sorted((len(p) for p, _ in P), reverse=True)
K = dict(l.split() for l in """
break Break
case Case
catch Catch
class Class
const DeclarationConst
continue Continue
debugger Debugger
default Default
delete OperatorDelete
do Do
else Else
enum ReservedEnum
export Export
extends Extends
false LiteralFalse
finally Finally
for For
function Function
if If
implements ReservedImplements
import Import
in OperatorIn
instanceof OperatorInstanceof
interface ReservedInterface
let DeclarationLet
new OperatorNew
null LiteralNull
package ReservedPackage
private ReservedPrivate
protected ReservedProtected
public ReservedPublic
return Return
static Static
super Super
switch Switch
this This
throw Throw
true LiteralTrue
try Try
typeof OperatorTypeof
undefined LiteralUndefined
var DeclarationVar
void OperatorVoid
while While
with With
yield Yield
""".strip().splitlines())

def spelled(w):
    return ' && '.join(f"s[i{'+%d' % k if k else ''}] == {ord(c)}" for k, c in enumerate(w))

o = ["// Generated by gen_lexer_tables.py from the spellings; do not edit.", ""]

firsts = sorted({ord(p[0]) for p, _ in P} - {46})
o.append("/// A punctuator starts with b (or with a dot: see punct).")
o.append("pub open spec fn pbyte(b: u8) -> bool { " + " || ".join(f"b == {c}" for c in firsts) + " || b == 46 }")
o.append("")
o.append("/// The longest punctuator spelled at i and its length: the first match in a list of all punctuators")
o.append("/// sorted by decreasing length. (UnexpectedToken, 0) where none is spelled.")
o.append("pub open spec fn punct(s: Seq<u8>, i: int) -> (Token, int) {")
o.append("    if pbyte(s[i]) { longest(s, i) } else { (Token::UnexpectedToken, 0) }")
o.append("}")
o.append("pub open spec fn longest(s: Seq<u8>, i: int) -> (Token, int) {")
for n, (p, t) in enumerate(P):
    o.append(f"    {'else ' if n else ''}if {spelled(p)} {{ (Token::{t}, {len(p)}) }} // {p}")
o.append("    else { (Token::UnexpectedToken, 0) }")
o.append("}")
o.append("")
o.append("/// The token for the word spelled by s[i..e].")
o.append("pub open spec fn kw(s: Seq<u8>, i: int, e: int) -> Token {")
letters = sorted({w[0] for w in K})
for n, l in enumerate(letters):
    o.append(f"    {'else ' if n else ''}if s[i] == {ord(l)} {{ kw_{l}(s, i, e) }}")
o.append("    else { Token::Identifier }")
o.append("}")
for l in letters:
    o.append(f"pub open spec fn kw_{l}(s: Seq<u8>, i: int, e: int) -> Token {{")
    for n, (w, t) in enumerate(sorted((w, t) for w, t in K.items() if w[0] == l)):
        o.append(f"    {'else ' if n else ''}if e == i + {len(w)} && {spelled(w)} {{ Token::{t} }} // {w}")
    o.append("    else { Token::Identifier }")
    o.append("}")
open(__file__.rsplit('/', 1)[0] + '/lexer_tables.rs', 'w').write('\n'.join(o) + '\n')
