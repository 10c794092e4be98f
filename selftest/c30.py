S = "crates/air_r_syntax/src/generated/nodes.rs"
KD = "crates/air_r_syntax/src/generated/kind.rs"
L = "crates/air_r_syntax/src/lib.rs"
NF = "crates/air_r_factory/src/generated/node_factory.rs"
SF = "crates/air_r_factory/src/generated/syntax_factory.rs"
G = "xtask/codegen/r.ungram"
IF = "impl RIfStatement {\n"
COND = "    pub fn condition(&self) -> SyntaxResult<AnyRExpression> {\n        support::required_node(&self.syntax, 2usize)\n    }\n    pub fn r_paren_token(&self) -> SyntaxResult<SyntaxToken> {\n        support::required_token(&self.syntax, 3usize)\n    }\n    pub fn consequence"
SEL = "        matches!(kind, R_DOT_DOT_I | R_DOTS | R_IDENTIFIER | R_STRING_VALUE)\n"
CAST = "            R_DOTS => AnyRSelector::RDots(RDots { syntax }),\n"
FROM = "impl From<RDots> for AnyRSelector {\n    fn from(node: RDots) -> AnyRSelector {\n        AnyRSelector::RDots(node)\n    }\n}\n"
MK = "    RWhileStatement::unwrap_cast(SyntaxNode::new_detached(\n        RSyntaxKind::R_WHILE_STATEMENT,\n        [\n            Some(SyntaxElement::Token(while_token)),\n            Some(SyntaxElement::Token(l_paren_token)),\n            Some(SyntaxElement::Node(condition.into_syntax())),\n            Some(SyntaxElement::Token(r_paren_token)),\n            Some(SyntaxElement::Node(body.into_syntax())),\n"
WITH = "    pub fn with_else_clause(mut self, else_clause: RElseClause) -> Self {\n        self.else_clause = Some(else_clause);\n"
ARG = "            R_ARGUMENT => {\n                let mut elements = (&children).into_iter();\n                let mut slots: RawNodeSlots<2usize> = RawNodeSlots::default();\n                let mut current_element = elements.next();\n                if let Some(element) = &current_element\n                    && RArgumentNameClause::can_cast(element.kind())\n                {\n                    slots.mark_present();\n                    current_element = elements.next();\n                }\n                slots.next_slot();\n"
LST = "            R_ARGUMENT_LIST => Self::make_separated_list_syntax(\n                kind,\n                children,\n                RArgument::can_cast,\n                T ! [,],\n                false,\n"
BLD = "                Some(SyntaxElement::Token(self.if_token)),\n                Some(SyntaxElement::Token(self.l_paren_token)),\n                Some(SyntaxElement::Node(self.condition.into_syntax())),\n                Some(SyntaxElement::Token(self.r_paren_token)),\n                Some(SyntaxElement::Node(self.consequence.into_syntax())),\n                self.else_clause\n                    .map(|token| SyntaxElement::Node(token.into_syntax())),\n"
CASES = [
    ("accessor slot", "bug", [(S, COND, COND.replace("2usize", "4usize"))]),
    ("accessor of another token", "bug", [(S, COND, COND.replace("3usize", "1usize"))]),
    ("optional accessor slot", "bug", [(S, "    pub fn else_clause(&self) -> Option<RElseClause> {\n        support::node(&self.syntax, 5usize)", "    pub fn else_clause(&self) -> Option<RElseClause> {\n        support::node(&self.syntax, 4usize)")]),
    ("fields swapped in as_fields", "bug", [(S, "            condition: self.condition(),\n            r_paren_token: self.r_paren_token(),\n            consequence: self.consequence(),", "            condition: self.consequence(),\n            r_paren_token: self.r_paren_token(),\n            consequence: self.condition(),")]),
    ("union refuses a member", "bug", [(S, SEL, SEL.replace(" | R_STRING_VALUE", ""))]),
    ("union accepts a stranger", "bug", [(S, SEL, SEL.replace(" | R_STRING_VALUE", " | R_STRING_VALUE | R_CALL"))]),
    ("cast to another member", "bug", [(S, CAST, CAST.replace("AnyRSelector::RDots(RDots { syntax })", "AnyRSelector::RDotDotI(RDotDotI { syntax })"))]),
    ("cast loses a member", "bug", [(S, CAST, "")]),
    ("union loses values", "bug", [(S, "                if let Some(any_r_value) = AnyRValue::cast(syntax) {\n                    return Some(AnyRExpression::AnyRValue(any_r_value));\n                }\n                return None;", "                return None;")]),
    ("node accepts another kind", "bug", [(S, "    fn can_cast(kind: SyntaxKind) -> bool {\n        kind == R_ELSE_CLAUSE\n", "    fn can_cast(kind: SyntaxKind) -> bool {\n        kind == R_ELSE_CLAUSE || kind == R_IF_STATEMENT\n")]),
    ("kind set of another kind", "bug", [(S, "SyntaxKindSet::from_raw(RawSyntaxKind(R_IF_STATEMENT as u16))", "SyntaxKindSet::from_raw(RawSyntaxKind(R_ELSE_CLAUSE as u16))")]),
    ("as_ accessor of another member", "bug", [(S, "    pub fn as_r_dots(&self) -> Option<&RDots> {\n        match &self {\n            AnyRSelector::RDots(item) => Some(item),\n            _ => None,\n", "    pub fn as_r_dots(&self) -> Option<&RDots> {\n        match &self {\n            AnyRSelector::RDots(item) if item.syntax.kind() != R_DOTS => Some(item),\n            _ => None,\n")]),
    ("punctuation text", "bug", [(KD, '            SUPER_ASSIGN => "<<-",\n', '            SUPER_ASSIGN => "<-",\n')]),
    ("keyword text", "bug", [(KD, '            NEXT_KW => "next",\n', '            NEXT_KW => "break",\n')]),
    ("keyword lost", "bug", [(KD, '            "repeat" => REPEAT_KW,\n', "")]),
    ("keyword of another word", "bug", [(KD, '            "inf" => INF_KW,\n', '            "inf" => NAN_KW,\n')]),
    ("keyword in capitals too", "bug", [(KD, '            "true" => TRUE_KW,\n', '            "true" | "TRUE" => TRUE_KW,\n')]),
    ("bogus kind not bogus", "bug", [(L, "            RSyntaxKind::R_BOGUS | RSyntaxKind::R_BOGUS_VALUE | RSyntaxKind::R_BOGUS_EXPRESSION => {\n                true\n", "            RSyntaxKind::R_BOGUS_VALUE => false,\n            RSyntaxKind::R_BOGUS | RSyntaxKind::R_BOGUS_EXPRESSION => {\n                true\n")]),
    ("comments are no trivia", "bug", [(L, "RSyntaxKind::COMMENT => Ok(TriviaPieceKind::SingleLineComment)", "RSyntaxKind::COMMENT => Ok(TriviaPieceKind::MultiLineComment)")]),
    ("constructor slots swapped", "bug", [(NF, MK, MK.replace("condition.into_syntax", "X.into_syntax").replace("body.into_syntax", "condition.into_syntax").replace("X.into", "body.into"))]),
    ("constructor tokens swapped", "bug", [(NF, MK, MK.replace("Token(l_paren_token", "Token(X").replace("Token(r_paren_token", "Token(l_paren_token").replace("Token(X", "Token(r_paren_token"))]),
    ("constructor kind", "bug", [(NF, MK, MK.replace("RSyntaxKind::R_WHILE_STATEMENT", "RSyntaxKind::R_FOR_STATEMENT"))]),
    ("builder forgets the option", "bug", [(NF, WITH, WITH.replace("self.else_clause = Some(else_clause);", "let _ = else_clause;"))]),
    ("build drops the option", "bug", [(NF, BLD, BLD.replace("                self.else_clause\n                    .map(|token| SyntaxElement::Node(token.into_syntax())),\n", "                None,\n"))]),
    ("builder slots swapped", "bug", [(NF, BLD, BLD.replace("self.condition", "self.X").replace("self.consequence", "self.condition").replace("self.X", "self.consequence"))]),
    ("factory accepts any clause", "bug", [(SF, ARG, ARG.replace("RArgumentNameClause::can_cast", "AnyRExpression::can_cast"))]),
    ("factory forgets a slot", "bug", [(SF, ARG, ARG[:-len("                slots.next_slot();\n")])]),
    ("factory forgets to mark", "bug", [(SF, ARG, ARG.replace("                    slots.mark_present();\n", ""))]),
    ("factory does not advance", "bug", [(SF, ARG, ARG.replace("                    slots.mark_present();\n                    current_element = elements.next();\n", "                    slots.mark_present();\n"))]),
    ("factory keeps extra children", "bug", [(SF, "                if current_element.is_some() {\n                    return RawSyntaxNode::new(\n                        R_ARGUMENT.to_bogus(),\n                        children.into_iter().map(Some),\n                    );\n                }\n", "                let _ = current_element;\n")]),
    ("factory renames the node", "bug", [(SF, "                slots.into_node(R_ARGUMENT, children)\n", "                slots.into_node(R_PARAMETER, children)\n")]),
    ("list of other elements", "bug", [(SF, LST, LST.replace("RArgument::can_cast", "RParameter::can_cast"))]),
    ("list by another separator", "bug", [(SF, LST, LST.replace("T ! [,]", "T ! [;]"))]),
    ("list with a trailing separator", "bug", [(SF, LST, LST.replace("false", "true"))]),
    ("grammar has another field", "bug", [(G, "RElseClause =\n\t'else'\n", "RElseClause =\n\t'else'\n\t'if'?\n")]),
    ("grammar makes a field optional", "bug", [(G, "RElseClause =\n\t'else'\n\talternative: AnyRExpression\n", "RElseClause =\n\t'else'\n\talternative: AnyRExpression?\n")]),
    ("grammar has another member", "bug", [(G, "AnyRSelector =\n\tRIdentifier\n", "AnyRSelector =\n\tRIdentifier\n\t| RCall\n")]),
    ("grammar order", "bug", [(G, "\titems: RParameterList\n\t')'\n", "\t')'\n\titems: RParameterList\n")]),
    ("kind set of a union lacks a member", "bug", [(S, "RDotDotI::KIND_SET\n        .union(RDots::KIND_SET)\n        .union(RIdentifier::KIND_SET)\n        .union(RStringValue::KIND_SET);\n    fn can_cast(kind: SyntaxKind) -> bool {\n        matches!(kind, R_DOT_DOT_I | R_DOTS | R_IDENTIFIER | R_STRING_VALUE)\n", "RDotDotI::KIND_SET\n        .union(RDots::KIND_SET)\n        .union(RIdentifier::KIND_SET);\n    fn can_cast(kind: SyntaxKind) -> bool {\n        matches!(kind, R_DOT_DOT_I | R_DOTS | R_IDENTIFIER | R_STRING_VALUE)\n")]),
    # same behaviour
    ("members in another order", "same", [(S, SEL, "        matches!(kind, R_STRING_VALUE | R_IDENTIFIER | R_DOTS | R_DOT_DOT_I)\n"), (S, CAST, ""), (S, "            R_STRING_VALUE => AnyRSelector::RStringValue(RStringValue { syntax }),\n            _ => return None,\n        };\n        Some(res)\n    }\n    fn syntax(&self) -> &SyntaxNode {\n        match self {\n            AnyRSelector::RDotDotI", "            R_STRING_VALUE => AnyRSelector::RStringValue(RStringValue { syntax }),\n            R_DOTS => AnyRSelector::RDots(RDots { syntax }),\n            _ => return None,\n        };\n        Some(res)\n    }\n    fn syntax(&self) -> &SyntaxNode {\n        match self {\n            AnyRSelector::RDotDotI")]),
    ("can_cast as a match", "same", [(S, SEL, "        match kind {\n            R_DOT_DOT_I | R_DOTS => true,\n            R_IDENTIFIER => true,\n            other => other == R_STRING_VALUE,\n        }\n")]),
    ("can_cast by the members", "same", [(S, SEL, "        RDotDotI::can_cast(kind) || RDots::can_cast(kind) || RIdentifier::can_cast(kind) || RStringValue::can_cast(kind)\n")]),
    ("cast by early return", "same", [(S, "    fn cast(syntax: SyntaxNode) -> Option<RArgumentList> {\n        if Self::can_cast(syntax.kind()) {\n            Some(RArgumentList {\n                syntax_list: syntax.into_list(),\n            })\n        } else {\n            None\n        }\n", "    fn cast(syntax: SyntaxNode) -> Option<RArgumentList> {\n        if !Self::can_cast(syntax.kind()) {\n            return None;\n        }\n        let syntax_list = syntax.into_list();\n        Some(RArgumentList { syntax_list })\n")]),
    ("as_fields by locals", "same", [(S, "        RIfStatementFields {\n            if_token: self.if_token(),\n", "        let if_token = self.if_token();\n        RIfStatementFields {\n            if_token,\n")]),
    ("accessor by helper", "same", [(S, COND, COND.replace("support::required_node(&self.syntax, 2usize)", "self.nth_expression(2usize)")), (S, IF, IF + "    fn nth_expression(&self, slot: usize) -> SyntaxResult<AnyRExpression> {\n        support::required_node(&self.syntax, slot)\n    }\n")]),
    ("constructor by locals", "same", [(NF, MK, "    let condition = SyntaxElement::Node(condition.into_syntax());\n" + MK.replace("Some(SyntaxElement::Node(condition.into_syntax()))", "Some(condition)"))]),
    ("build by match", "same", [(NF, BLD, BLD.replace("                self.else_clause\n                    .map(|token| SyntaxElement::Node(token.into_syntax())),\n", "                match self.else_clause {\n                    Some(clause) => Some(SyntaxElement::Node(clause.into_syntax())),\n                    None => None,\n                },\n"))]),
    ("factory by match", "same", [(SF, ARG, ARG.replace("                if let Some(element) = &current_element\n                    && RArgumentNameClause::can_cast(element.kind())\n                {\n                    slots.mark_present();\n                    current_element = elements.next();\n                }\n", "                match &current_element {\n                    Some(element) if RArgumentNameClause::can_cast(element.kind()) => {\n                        slots.mark_present();\n                        current_element = elements.next();\n                    }\n                    _ => {}\n                }\n"))]),
    ("factory by is_some_and", "same", [(SF, ARG, ARG.replace("                if let Some(element) = &current_element\n                    && RArgumentNameClause::can_cast(element.kind())\n                {\n", "                let fits = current_element\n                    .as_ref()\n                    .is_some_and(|element| RArgumentNameClause::can_cast(element.kind()));\n                if fits {\n"))]),
    ("factory ends by match", "same", [(SF, "                if current_element.is_some() {\n                    return RawSyntaxNode::new(\n                        R_ARGUMENT.to_bogus(),\n                        children.into_iter().map(Some),\n                    );\n                }\n                slots.into_node(R_ARGUMENT, children)\n", "                if current_element.is_none() {\n                    slots.into_node(R_ARGUMENT, children)\n                } else {\n                    RawSyntaxNode::new(kind.to_bogus(), children.into_iter().map(Some))\n                }\n")]),
    ("keywords by early return", "same", [(KD, "    pub fn from_keyword(ident: &str) -> Option<RSyntaxKind> {\n", "    pub fn from_keyword(ident: &str) -> Option<RSyntaxKind> {\n        if ident == \"in\" {\n            return Some(IN_KW);\n        }\n")]),
    ("bogus kinds by matches", "same", [(L, "    fn is_root(&self) -> bool {\n", "    fn is_root(&self) -> bool {\n        let _ = self;\n")]),
    ("builder by update", "same", [(NF, WITH + "        self\n", WITH.replace("mut self", "self").replace("        self.else_clause = Some(else_clause);\n", "        Self {\n            else_clause: Some(else_clause),\n            ..self\n        }\n"))]),
    ("builder as an array", "same", [(NF, MK, "    let slots = [\n        Some(SyntaxElement::Token(while_token)),\n        Some(SyntaxElement::Token(l_paren_token)),\n        Some(SyntaxElement::Node(condition.into_syntax())),\n        Some(SyntaxElement::Token(r_paren_token)),\n        Some(SyntaxElement::Node(body.into_syntax())),\n    ];\n    let node = SyntaxNode::new_detached(RSyntaxKind::R_WHILE_STATEMENT, slots);\n    return RWhileStatement::unwrap_cast(node);\n    #[allow(unreachable_code)]\n" + MK)]),
    ("slot by a helper", "same", [(SF, ARG, ARG.replace("                if let Some(element) = &current_element\n                    && RArgumentNameClause::can_cast(element.kind())\n                {\n                    slots.mark_present();\n                    current_element = elements.next();\n                }\n                slots.next_slot();\n", "                if is_clause(current_element.as_ref().map(|element| element.kind())) {\n                    slots.mark_present();\n                    current_element = elements.next();\n                }\n                slots.next_slot();\n")), (SF, "#[derive(Debug)]\npub struct RSyntaxFactory;\n", "fn is_clause(kind: Option<RSyntaxKind>) -> bool {\n    match kind {\n        Some(kind) => RArgumentNameClause::can_cast(kind),\n        None => false,\n    }\n}\n#[derive(Debug)]\npub struct RSyntaxFactory;\n")]),
    ("fields of the struct reordered", "same", [(S, "pub struct RElseClauseFields {\n    pub else_token: SyntaxResult<SyntaxToken>,\n    pub alternative: SyntaxResult<AnyRExpression>,\n", "pub struct RElseClauseFields {\n    pub alternative: SyntaxResult<AnyRExpression>,\n    pub else_token: SyntaxResult<SyntaxToken>,\n")]),
    ("texts by if", "same", [(KD, "    pub const fn to_string(&self) -> Option<&'static str> {\n", "    pub const fn to_string(&self) -> Option<&'static str> {\n        if let COMMA = self {\n            return Some(\",\");\n        }\n")]),
    ("demoted by two matches", "same", [(L, "    fn to_bogus(&self) -> Self {\n", "    fn to_bogus(&self) -> Self {\n        if self.is_bogus() {\n            return *self;\n        }\n")]),
    ("grammar alternatives reordered", "same", [(G, "AnyRSelector =\n\tRIdentifier\n\t| RStringValue\n", "AnyRSelector =\n\tRStringValue\n\t| RIdentifier\n")]),
    ("comments in the grammar", "same", [(G, "RElseClause =\n", "// the other way\nRElseClause =\n")]),
]
