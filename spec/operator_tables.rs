// written by gen_codegen.py
pub open spec fn spelling(op: OperatorKind) -> Seq<u8> { match op { OperatorKind::FatArrow => seq![61u8, 62u8], OperatorKind::New => seq![110u8, 101u8, 119u8], OperatorKind::Increment => seq![43u8, 43u8], OperatorKind::Decrement => seq![45u8, 45u8], OperatorKind::LogicalNot => seq![33u8], OperatorKind::BitwiseNot => seq![126u8], OperatorKind::Typeof => seq![116u8, 121u8, 112u8, 101u8, 111u8, 102u8], OperatorKind::Void => seq![118u8, 111u8, 105u8, 100u8], OperatorKind::Delete => seq![100u8, 101u8, 108u8, 101u8, 116u8, 101u8], OperatorKind::Multiplication => seq![42u8], OperatorKind::Division => seq![47u8], OperatorKind::Remainder => seq![37u8], OperatorKind::Exponent => seq![42u8, 42u8], OperatorKind::Addition => seq![43u8], OperatorKind::Subtraction => seq![45u8], OperatorKind::BitShiftLeft => seq![60u8, 60u8], OperatorKind::BitShiftRight => seq![62u8, 62u8], OperatorKind::UBitShiftRight => seq![62u8, 62u8, 62u8], OperatorKind::Lesser => seq![60u8], OperatorKind::LesserEquals => seq![60u8, 61u8], OperatorKind::Greater => seq![62u8], OperatorKind::GreaterEquals => seq![62u8, 61u8], OperatorKind::Instanceof => seq![105u8, 110u8, 115u8, 116u8, 97u8, 110u8, 99u8, 101u8, 111u8, 102u8], OperatorKind::In => seq![105u8, 110u8], OperatorKind::StrictEquality => seq![61u8, 61u8, 61u8], OperatorKind::StrictInequality => seq![33u8, 61u8, 61u8], OperatorKind::Equality => seq![61u8, 61u8], OperatorKind::Inequality => seq![33u8, 61u8], OperatorKind::BitwiseAnd => seq![38u8], OperatorKind::BitwiseXor => seq![94u8], OperatorKind::BitwiseOr => seq![124u8], OperatorKind::LogicalAnd => seq![38u8, 38u8], OperatorKind::LogicalOr => seq![124u8, 124u8], OperatorKind::Conditional => seq![63u8], OperatorKind::Assign => seq![61u8], OperatorKind::AddAssign => seq![43u8, 61u8], OperatorKind::SubtractAssign => seq![45u8, 61u8], OperatorKind::ExponentAssign => seq![42u8, 42u8, 61u8], OperatorKind::MultiplyAssign => seq![42u8, 61u8], OperatorKind::DivideAssign => seq![47u8, 61u8], OperatorKind::RemainderAssign => seq![37u8, 61u8], OperatorKind::BSLAssign => seq![60u8, 60u8, 61u8], OperatorKind::BSRAssign => seq![62u8, 62u8, 61u8], OperatorKind::UBSRAssign => seq![62u8, 62u8, 62u8, 61u8], OperatorKind::BitAndAssign => seq![38u8, 61u8], OperatorKind::BitXorAssign => seq![94u8, 61u8], OperatorKind::BitOrAssign => seq![124u8, 61u8], OperatorKind::Spread => seq![46u8, 46u8, 46u8], } }
pub open spec fn op_level(op: OperatorKind) -> int { match op { OperatorKind::FatArrow => 18int, OperatorKind::New => 17int, OperatorKind::Increment => 16int, OperatorKind::Decrement => 16int, OperatorKind::LogicalNot => 15int, OperatorKind::BitwiseNot => 15int, OperatorKind::Typeof => 15int, OperatorKind::Void => 15int, OperatorKind::Delete => 15int, OperatorKind::Multiplication => 14int, OperatorKind::Division => 14int, OperatorKind::Remainder => 14int, OperatorKind::Exponent => 14int, OperatorKind::Addition => 13int, OperatorKind::Subtraction => 13int, OperatorKind::BitShiftLeft => 12int, OperatorKind::BitShiftRight => 12int, OperatorKind::UBitShiftRight => 12int, OperatorKind::Lesser => 11int, OperatorKind::LesserEquals => 11int, OperatorKind::Greater => 11int, OperatorKind::GreaterEquals => 11int, OperatorKind::Instanceof => 11int, OperatorKind::In => 11int, OperatorKind::StrictEquality => 10int, OperatorKind::StrictInequality => 10int, OperatorKind::Equality => 10int, OperatorKind::Inequality => 10int, OperatorKind::BitwiseAnd => 9int, OperatorKind::BitwiseXor => 8int, OperatorKind::BitwiseOr => 7int, OperatorKind::LogicalAnd => 6int, OperatorKind::LogicalOr => 5int, OperatorKind::Conditional => 4int, OperatorKind::Assign => 3int, OperatorKind::AddAssign => 3int, OperatorKind::SubtractAssign => 3int, OperatorKind::ExponentAssign => 3int, OperatorKind::MultiplyAssign => 3int, OperatorKind::DivideAssign => 3int, OperatorKind::RemainderAssign => 3int, OperatorKind::BSLAssign => 3int, OperatorKind::BSRAssign => 3int, OperatorKind::UBSRAssign => 3int, OperatorKind::BitAndAssign => 3int, OperatorKind::BitXorAssign => 3int, OperatorKind::BitOrAssign => 3int, OperatorKind::Spread => 1int, } }
pub open spec fn is_prefix(op: OperatorKind) -> bool { match op { OperatorKind::FatArrow => false, OperatorKind::New => true, OperatorKind::Increment => true, OperatorKind::Decrement => true, OperatorKind::LogicalNot => true, OperatorKind::BitwiseNot => true, OperatorKind::Typeof => true, OperatorKind::Void => true, OperatorKind::Delete => true, OperatorKind::Multiplication => false, OperatorKind::Division => false, OperatorKind::Remainder => false, OperatorKind::Exponent => false, OperatorKind::Addition => true, OperatorKind::Subtraction => true, OperatorKind::BitShiftLeft => false, OperatorKind::BitShiftRight => false, OperatorKind::UBitShiftRight => false, OperatorKind::Lesser => false, OperatorKind::LesserEquals => false, OperatorKind::Greater => false, OperatorKind::GreaterEquals => false, OperatorKind::Instanceof => false, OperatorKind::In => false, OperatorKind::StrictEquality => false, OperatorKind::StrictInequality => false, OperatorKind::Equality => false, OperatorKind::Inequality => false, OperatorKind::BitwiseAnd => false, OperatorKind::BitwiseXor => false, OperatorKind::BitwiseOr => false, OperatorKind::LogicalAnd => false, OperatorKind::LogicalOr => false, OperatorKind::Conditional => false, OperatorKind::Assign => false, OperatorKind::AddAssign => false, OperatorKind::SubtractAssign => false, OperatorKind::ExponentAssign => false, OperatorKind::MultiplyAssign => false, OperatorKind::DivideAssign => false, OperatorKind::RemainderAssign => false, OperatorKind::BSLAssign => false, OperatorKind::BSRAssign => false, OperatorKind::UBSRAssign => false, OperatorKind::BitAndAssign => false, OperatorKind::BitXorAssign => false, OperatorKind::BitOrAssign => false, OperatorKind::Spread => true, } }
pub open spec fn is_infix(op: OperatorKind) -> bool { match op { OperatorKind::FatArrow => true, OperatorKind::New => false, OperatorKind::Increment => false, OperatorKind::Decrement => false, OperatorKind::LogicalNot => false, OperatorKind::BitwiseNot => false, OperatorKind::Typeof => false, OperatorKind::Void => false, OperatorKind::Delete => false, OperatorKind::Multiplication => true, OperatorKind::Division => true, OperatorKind::Remainder => true, OperatorKind::Exponent => true, OperatorKind::Addition => true, OperatorKind::Subtraction => true, OperatorKind::BitShiftLeft => true, OperatorKind::BitShiftRight => true, OperatorKind::UBitShiftRight => true, OperatorKind::Lesser => true, OperatorKind::LesserEquals => true, OperatorKind::Greater => true, OperatorKind::GreaterEquals => true, OperatorKind::Instanceof => true, OperatorKind::In => true, OperatorKind::StrictEquality => true, OperatorKind::StrictInequality => true, OperatorKind::Equality => true, OperatorKind::Inequality => true, OperatorKind::BitwiseAnd => true, OperatorKind::BitwiseXor => true, OperatorKind::BitwiseOr => true, OperatorKind::LogicalAnd => true, OperatorKind::LogicalOr => true, OperatorKind::Conditional => true, OperatorKind::Assign => true, OperatorKind::AddAssign => true, OperatorKind::SubtractAssign => true, OperatorKind::ExponentAssign => true, OperatorKind::MultiplyAssign => true, OperatorKind::DivideAssign => true, OperatorKind::RemainderAssign => true, OperatorKind::BSLAssign => true, OperatorKind::BSRAssign => true, OperatorKind::UBSRAssign => true, OperatorKind::BitAndAssign => true, OperatorKind::BitXorAssign => true, OperatorKind::BitOrAssign => true, OperatorKind::Spread => false, } }
pub open spec fn is_assignment(op: OperatorKind) -> bool { match op { OperatorKind::FatArrow => false, OperatorKind::New => false, OperatorKind::Increment => false, OperatorKind::Decrement => false, OperatorKind::LogicalNot => false, OperatorKind::BitwiseNot => false, OperatorKind::Typeof => false, OperatorKind::Void => false, OperatorKind::Delete => false, OperatorKind::Multiplication => false, OperatorKind::Division => false, OperatorKind::Remainder => false, OperatorKind::Exponent => false, OperatorKind::Addition => false, OperatorKind::Subtraction => false, OperatorKind::BitShiftLeft => false, OperatorKind::BitShiftRight => false, OperatorKind::UBitShiftRight => false, OperatorKind::Lesser => false, OperatorKind::LesserEquals => false, OperatorKind::Greater => false, OperatorKind::GreaterEquals => false, OperatorKind::Instanceof => false, OperatorKind::In => false, OperatorKind::StrictEquality => false, OperatorKind::StrictInequality => false, OperatorKind::Equality => false, OperatorKind::Inequality => false, OperatorKind::BitwiseAnd => false, OperatorKind::BitwiseXor => false, OperatorKind::BitwiseOr => false, OperatorKind::LogicalAnd => false, OperatorKind::LogicalOr => false, OperatorKind::Conditional => false, OperatorKind::Assign => true, OperatorKind::AddAssign => true, OperatorKind::SubtractAssign => true, OperatorKind::ExponentAssign => true, OperatorKind::MultiplyAssign => true, OperatorKind::DivideAssign => true, OperatorKind::RemainderAssign => true, OperatorKind::BSLAssign => true, OperatorKind::BSRAssign => true, OperatorKind::UBSRAssign => true, OperatorKind::BitAndAssign => true, OperatorKind::BitXorAssign => true, OperatorKind::BitOrAssign => true, OperatorKind::Spread => false, } }
pub open spec fn cat(op: OperatorKind) -> OperatorCategory { match op { OperatorKind::FatArrow => OperatorCategory::Safe, OperatorKind::New => OperatorCategory::Word, OperatorKind::Increment => OperatorCategory::Plus, OperatorKind::Decrement => OperatorCategory::Minus, OperatorKind::LogicalNot => OperatorCategory::Safe, OperatorKind::BitwiseNot => OperatorCategory::Safe, OperatorKind::Typeof => OperatorCategory::Word, OperatorKind::Void => OperatorCategory::Word, OperatorKind::Delete => OperatorCategory::Word, OperatorKind::Multiplication => OperatorCategory::Safe, OperatorKind::Division => OperatorCategory::Safe, OperatorKind::Remainder => OperatorCategory::Safe, OperatorKind::Exponent => OperatorCategory::Safe, OperatorKind::Addition => OperatorCategory::Plus, OperatorKind::Subtraction => OperatorCategory::Minus, OperatorKind::BitShiftLeft => OperatorCategory::Safe, OperatorKind::BitShiftRight => OperatorCategory::Safe, OperatorKind::UBitShiftRight => OperatorCategory::Safe, OperatorKind::Lesser => OperatorCategory::Safe, OperatorKind::LesserEquals => OperatorCategory::Safe, OperatorKind::Greater => OperatorCategory::Safe, OperatorKind::GreaterEquals => OperatorCategory::Safe, OperatorKind::Instanceof => OperatorCategory::Word, OperatorKind::In => OperatorCategory::Word, OperatorKind::StrictEquality => OperatorCategory::Safe, OperatorKind::StrictInequality => OperatorCategory::Safe, OperatorKind::Equality => OperatorCategory::Safe, OperatorKind::Inequality => OperatorCategory::Safe, OperatorKind::BitwiseAnd => OperatorCategory::Safe, OperatorKind::BitwiseXor => OperatorCategory::Safe, OperatorKind::BitwiseOr => OperatorCategory::Safe, OperatorKind::LogicalAnd => OperatorCategory::Safe, OperatorKind::LogicalOr => OperatorCategory::Safe, OperatorKind::Conditional => OperatorCategory::Safe, OperatorKind::Assign => OperatorCategory::Safe, OperatorKind::AddAssign => OperatorCategory::Safe, OperatorKind::SubtractAssign => OperatorCategory::Safe, OperatorKind::ExponentAssign => OperatorCategory::Safe, OperatorKind::MultiplyAssign => OperatorCategory::Safe, OperatorKind::DivideAssign => OperatorCategory::Safe, OperatorKind::RemainderAssign => OperatorCategory::Safe, OperatorKind::BSLAssign => OperatorCategory::Safe, OperatorKind::BSRAssign => OperatorCategory::Safe, OperatorKind::UBSRAssign => OperatorCategory::Safe, OperatorKind::BitAndAssign => OperatorCategory::Safe, OperatorKind::BitXorAssign => OperatorCategory::Safe, OperatorKind::BitOrAssign => OperatorCategory::Safe, OperatorKind::Spread => OperatorCategory::Safe, } }
pub open spec fn op_of(token: Token) -> Option<OperatorKind> { match token { Token::OperatorFatArrow => Some(OperatorKind::FatArrow), Token::OperatorNew => Some(OperatorKind::New), Token::OperatorIncrement => Some(OperatorKind::Increment), Token::OperatorDecrement => Some(OperatorKind::Decrement), Token::OperatorLogicalNot => Some(OperatorKind::LogicalNot), Token::OperatorBitwiseNot => Some(OperatorKind::BitwiseNot), Token::OperatorTypeof => Some(OperatorKind::Typeof), Token::OperatorVoid => Some(OperatorKind::Void), Token::OperatorDelete => Some(OperatorKind::Delete), Token::OperatorMultiplication => Some(OperatorKind::Multiplication), Token::OperatorDivision => Some(OperatorKind::Division), Token::OperatorRemainder => Some(OperatorKind::Remainder), Token::OperatorExponent => Some(OperatorKind::Exponent), Token::OperatorAddition => Some(OperatorKind::Addition), Token::OperatorSubtraction => Some(OperatorKind::Subtraction), Token::OperatorBitShiftLeft => Some(OperatorKind::BitShiftLeft), Token::OperatorBitShiftRight => Some(OperatorKind::BitShiftRight), Token::OperatorUBitShiftRight => Some(OperatorKind::UBitShiftRight), Token::OperatorLesser => Some(OperatorKind::Lesser), Token::OperatorLesserEquals => Some(OperatorKind::LesserEquals), Token::OperatorGreater => Some(OperatorKind::Greater), Token::OperatorGreaterEquals => Some(OperatorKind::GreaterEquals), Token::OperatorInstanceof => Some(OperatorKind::Instanceof), Token::OperatorIn => Some(OperatorKind::In), Token::OperatorStrictEquality => Some(OperatorKind::StrictEquality), Token::OperatorStrictInequality => Some(OperatorKind::StrictInequality), Token::OperatorEquality => Some(OperatorKind::Equality), Token::OperatorInequality => Some(OperatorKind::Inequality), Token::OperatorBitwiseAnd => Some(OperatorKind::BitwiseAnd), Token::OperatorBitwiseXor => Some(OperatorKind::BitwiseXor), Token::OperatorBitwiseOr => Some(OperatorKind::BitwiseOr), Token::OperatorLogicalAnd => Some(OperatorKind::LogicalAnd), Token::OperatorLogicalOr => Some(OperatorKind::LogicalOr), Token::OperatorConditional => Some(OperatorKind::Conditional), Token::OperatorAssign => Some(OperatorKind::Assign), Token::OperatorAddAssign => Some(OperatorKind::AddAssign), Token::OperatorSubtractAssign => Some(OperatorKind::SubtractAssign), Token::OperatorExponentAssign => Some(OperatorKind::ExponentAssign), Token::OperatorMultiplyAssign => Some(OperatorKind::MultiplyAssign), Token::OperatorDivideAssign => Some(OperatorKind::DivideAssign), Token::OperatorRemainderAssign => Some(OperatorKind::RemainderAssign), Token::OperatorBSLAssign => Some(OperatorKind::BSLAssign), Token::OperatorBSRAssign => Some(OperatorKind::BSRAssign), Token::OperatorUBSRAssign => Some(OperatorKind::UBSRAssign), Token::OperatorBitAndAssign => Some(OperatorKind::BitAndAssign), Token::OperatorBitXorAssign => Some(OperatorKind::BitXorAssign), Token::OperatorBitOrAssign => Some(OperatorKind::BitOrAssign), Token::OperatorSpread => Some(OperatorKind::Spread), _ => None } }
