P = "crates/air_r_parser/src/parse.rs"
T = "crates/air_r_parser/src/treesitter.rs"
WN = "    fn handle_token(&mut self, node: tree_sitter::Node, kind: RSyntaxKind) {\n"
CASES = [
    ("table loses **", "bug", [(T, '        "**" => RSyntaxKind::EXPONENTIATE2,\n', "")]),
    ("table swaps <- and <<-", "bug", [(T, '"<-" => RSyntaxKind::ASSIGN,', '"<-" => RSyntaxKind::SUPER_ASSIGN,'), (T, '"<<-" => RSyntaxKind::SUPER_ASSIGN,', '"<<-" => RSyntaxKind::ASSIGN,')]),
    ("table NA_real_", "bug", [(T, '"NA_real_" => RSyntaxKind::NA_DOUBLE_KW', '"NA_real_" => RSyntaxKind::NA_INTEGER_KW')]),
    ("leave of walrus does nothing", "bug", [(P, "            | RSyntaxKind::WALRUS\n            | RSyntaxKind::ASSIGN_RIGHT\n            | RSyntaxKind::SUPER_ASSIGN_RIGHT\n            | RSyntaxKind::EQUAL\n            | RSyntaxKind::OR\n            | RSyntaxKind::AND\n            | RSyntaxKind::OR2\n            | RSyntaxKind::AND2\n            | RSyntaxKind::LESS_THAN\n            | RSyntaxKind::LESS_THAN_OR_EQUAL_TO\n            | RSyntaxKind::GREATER_THAN\n            | RSyntaxKind::GREATER_THAN_OR_EQUAL_TO\n            | RSyntaxKind::EQUAL2\n            | RSyntaxKind::NOT_EQUAL\n            | RSyntaxKind::PLUS\n            | RSyntaxKind::MINUS\n            | RSyntaxKind::MULTIPLY\n            | RSyntaxKind::DIVIDE\n            | RSyntaxKind::EXPONENTIATE\n            | RSyntaxKind::EXPONENTIATE2\n            | RSyntaxKind::PIPE\n            | RSyntaxKind::SPECIAL\n            | RSyntaxKind::COLON\n            | RSyntaxKind::COLON2\n            | RSyntaxKind::COLON3\n            | RSyntaxKind::DOLLAR\n            | RSyntaxKind::AT\n            | RSyntaxKind::BANG\n            | RSyntaxKind::WAT\n            | RSyntaxKind::BACKSLASH\n            | RSyntaxKind::STRING_OPEN\n            | RSyntaxKind::STRING_CLOSE\n            | RSyntaxKind::FUNCTION_KW\n            | RSyntaxKind::FOR_KW\n            | RSyntaxKind::IN_KW\n            | RSyntaxKind::WHILE_KW\n            | RSyntaxKind::REPEAT_KW\n            | RSyntaxKind::IF_KW\n            | RSyntaxKind::ELSE_KW\n            | RSyntaxKind::NA_LOGICAL_KW\n            | RSyntaxKind::NA_INTEGER_KW\n            | RSyntaxKind::NA_DOUBLE_KW\n            | RSyntaxKind::NA_COMPLEX_KW\n            | RSyntaxKind::NA_CHARACTER_KW\n            | RSyntaxKind::L_PAREN\n            | RSyntaxKind::R_PAREN\n            | RSyntaxKind::L_BRACK\n            | RSyntaxKind::R_BRACK\n            | RSyntaxKind::L_BRACK2\n            | RSyntaxKind::R_BRACK2\n            | RSyntaxKind::L_CURLY\n            | RSyntaxKind::R_CURLY => self.handle_token(node, kind),", "            | RSyntaxKind::ASSIGN_RIGHT\n            | RSyntaxKind::SUPER_ASSIGN_RIGHT\n            | RSyntaxKind::EQUAL\n            | RSyntaxKind::OR\n            | RSyntaxKind::AND\n            | RSyntaxKind::OR2\n            | RSyntaxKind::AND2\n            | RSyntaxKind::LESS_THAN\n            | RSyntaxKind::LESS_THAN_OR_EQUAL_TO\n            | RSyntaxKind::GREATER_THAN\n            | RSyntaxKind::GREATER_THAN_OR_EQUAL_TO\n            | RSyntaxKind::EQUAL2\n            | RSyntaxKind::NOT_EQUAL\n            | RSyntaxKind::PLUS\n            | RSyntaxKind::MINUS\n            | RSyntaxKind::MULTIPLY\n            | RSyntaxKind::DIVIDE\n            | RSyntaxKind::EXPONENTIATE\n            | RSyntaxKind::EXPONENTIATE2\n            | RSyntaxKind::PIPE\n            | RSyntaxKind::SPECIAL\n            | RSyntaxKind::COLON\n            | RSyntaxKind::COLON2\n            | RSyntaxKind::COLON3\n            | RSyntaxKind::DOLLAR\n            | RSyntaxKind::AT\n            | RSyntaxKind::BANG\n            | RSyntaxKind::WAT\n            | RSyntaxKind::BACKSLASH\n            | RSyntaxKind::STRING_OPEN\n            | RSyntaxKind::STRING_CLOSE\n            | RSyntaxKind::FUNCTION_KW\n            | RSyntaxKind::FOR_KW\n            | RSyntaxKind::IN_KW\n            | RSyntaxKind::WHILE_KW\n            | RSyntaxKind::REPEAT_KW\n            | RSyntaxKind::IF_KW\n            | RSyntaxKind::ELSE_KW\n            | RSyntaxKind::NA_LOGICAL_KW\n            | RSyntaxKind::NA_INTEGER_KW\n            | RSyntaxKind::NA_DOUBLE_KW\n            | RSyntaxKind::NA_COMPLEX_KW\n            | RSyntaxKind::NA_CHARACTER_KW\n            | RSyntaxKind::L_PAREN\n            | RSyntaxKind::R_PAREN\n            | RSyntaxKind::L_BRACK\n            | RSyntaxKind::R_BRACK\n            | RSyntaxKind::L_BRACK2\n            | RSyntaxKind::R_BRACK2\n            | RSyntaxKind::L_CURLY\n            | RSyntaxKind::R_CURLY => self.handle_token(node, kind),\n            RSyntaxKind::WALRUS => (),")]),
    ("next as break", "bug", [(P, "self.handle_value_leave(node, kind, RSyntaxKind::NEXT_KW)", "self.handle_value_leave(node, kind, RSyntaxKind::BREAK_KW)")]),
    ("call opens subset", "bug", [(P, "            RSyntaxKind::R_CALL => self.handle_call_like_enter(\n                RSyntaxKind::R_CALL,", "            RSyntaxKind::R_CALL => self.handle_call_like_enter(\n                RSyntaxKind::R_SUBSET,")]),
    ("subset2 arguments kind", "bug", [(P, "                RSyntaxKind::R_SUBSET2,\n                RSyntaxKind::R_SUBSET2_ARGUMENTS,", "                RSyntaxKind::R_SUBSET2,\n                RSyntaxKind::R_SUBSET_ARGUMENTS,")]),
    ("parameter list not closed", "bug", [(P, "                        self.handle_node_leave(RSyntaxKind::R_PARAMETER_LIST);\n", "")]),
    ("parameter list closed late", "bug", [(P, "                        self.handle_node_leave(RSyntaxKind::R_PARAMETER_LIST);\n                        self.walk_next(iter);", "                        self.walk_next(iter);\n                        self.handle_node_leave(RSyntaxKind::R_PARAMETER_LIST);")]),
    ("parameters refuse comments", "bug", [(P, "RSyntaxKind::R_PARAMETER | RSyntaxKind::COMMA | RSyntaxKind::COMMENT => {", "RSyntaxKind::R_PARAMETER | RSyntaxKind::COMMA => {")]),
    ("parameter default never closed", "bug", [(P, "        if used_equal {\n            self.handle_node_leave(RSyntaxKind::R_PARAMETER_DEFAULT);\n        }\n", "        let _ = used_equal;\n")]),
    ("else flag set late", "bug", [(P, "                        used_else = true;\n                        self.handle_node_enter(RSyntaxKind::R_ELSE_CLAUSE);", "                        self.handle_node_enter(RSyntaxKind::R_ELSE_CLAUSE);"), (P, "                    RSyntaxKind::COMMENT => self.walk_next(iter),\n                    // i.e.", "                    RSyntaxKind::COMMENT => {\n                        used_else = true;\n                        self.walk_next(iter)\n                    }\n                    // i.e.")]),
    ("else clause after the word", "bug", [(P, "                        self.handle_node_enter(RSyntaxKind::R_ELSE_CLAUSE);\n                        self.walk_next(iter);", "                        self.walk_next(iter);\n                        self.handle_node_enter(RSyntaxKind::R_ELSE_CLAUSE);")]),
    ("braces walk next twice", "bug", [(P, "                        self.walk_next(iter);\n                        self.handle_node_enter(RSyntaxKind::R_EXPRESSION_LIST);", "                        self.walk_next(iter);\n                        self.walk_next(iter);\n                        self.handle_node_enter(RSyntaxKind::R_EXPRESSION_LIST);")]),
    ("hole before close lost", "bug", [(P, "                        self.handle_hole_before_close(last_kind);\n", "")]),
    ("hole before close of nothing", "bug", [(P, "        if last_kind == RSyntaxKind::COMMA {", "        if last_kind != RSyntaxKind::R_ARGUMENT {")]),
    ("hole before comma after open lost", "bug", [(P, "if last_kind == RSyntaxKind::COMMA || last_kind == open {", "if last_kind == RSyntaxKind::COMMA && last_kind != open {")]),
    ("comment resets last kind", "bug", [(P, "                        // Not setting `last_kind` here!", "                        last_kind = RSyntaxKind::COMMENT;")]),
    ("comma not remembered", "bug", [(P, "                        last_kind = RSyntaxKind::COMMA;\n", "")]),
    ("argument not remembered", "bug", [(P, "                        last_kind = RSyntaxKind::R_ARGUMENT;\n", "")]),
    ("name clause for values too", "bug", [(P, "                            && next_field_name == \"name\"\n", "                            && next_field_name != \"\"\n")]),
    ("null name forgotten", "bug", [(P, "                    | RSyntaxKind::R_DOT_DOT_I\n                    | RSyntaxKind::R_NULL_EXPRESSION => {\n                        if !seen", "                    | RSyntaxKind::R_DOT_DOT_I => {\n                        if !seen")]),
    ("name clause closed before =", "bug", [(P, "                        seen_equal = true;\n                        self.walk_next(iter);\n                        self.handle_node_leave(RSyntaxKind::R_ARGUMENT_NAME_CLAUSE);", "                        seen_equal = true;\n                        self.handle_node_leave(RSyntaxKind::R_ARGUMENT_NAME_CLAUSE);\n                        self.walk_next(iter);")]),
    ("skip of integer removed", "bug", [(P, "        // Can't have comments between the value and the `L`.\n        iter.skip_subtree();", "        let _ = iter;")]),
    ("skip of string content removed", "bug", [(P, "        // any `escape_sequence` nodes tree-sitter-r may emit, which we don't represent\n        iter.skip_subtree();", "        let _ = iter;")]),
    ("float skips its subtree away", "bug", [(P, "            RSyntaxKind::STRING_CONTENT => self.handle_string_content_leave(node),", "            RSyntaxKind::STRING_CONTENT => {\n                if node.end_byte() > node.start_byte() + 1 {\n                    self.handle_string_content_leave(node)\n                }\n            }")]),
    ("last_end not moved by token", "bug", [(P, "        self.last_end = this_end;\n        self.between_two_tokens = true;", "        self.between_two_tokens = true;")]),
    ("last_end is the start", "bug", [(P, "        self.last_end = this_end;\n        self.between_two_tokens = true;", "        self.last_end = this_start;\n        self.between_two_tokens = true;")]),
    ("between not set", "bug", [(P, "        self.between_two_tokens = true;\n", "")]),
    ("token end is start", "bug", [(P, "        self.parse.token(kind, this_end);", "        self.parse.token(kind, this_start);")]),
    ("gap only if long", "bug", [(P, "        self.parse\n            .derive_trivia(gap, self.last_end, self.between_two_tokens);\n\n        self.parse.token(", "        if gap.len() > 1 {\n            self.parse\n                .derive_trivia(gap, self.last_end, self.between_two_tokens);\n        }\n\n        self.parse.token(")]),
    ("trivia after token", "bug", [(P, "        self.parse\n            .derive_trivia(gap, self.last_end, self.between_two_tokens);\n\n        self.parse.token(kind, this_end);\n\n        self.last_end = this_end;", "        self.parse.token(kind, this_end);\n\n        self.last_end = this_end;\n        self.parse\n            .derive_trivia(gap, self.last_end, self.between_two_tokens);\n")]),
    ("comment gap lost", "bug", [(P, "            if this_start != self.last_end {", "            if this_start != self.last_end && trailing {")]),
    ("comment lost", "bug", [(P, "        // Comments are \"single line\" even if they are consecutive\n", "        if this_start == this_end {\n            return;\n        }\n")]),
    ("comment does not move the end", "bug", [(P, "            trailing,\n        ));\n\n        self.last_end = this_end;", "            trailing,\n        ));\n\n        if trailing {\n            self.last_end = this_end;\n        }")]),
    ("comment trailing after newline", "bug", [(P, "            trailing = false;\n            self.parse\n", "            self.parse\n")]),
    ("root gap not read", "bug", [(P, "        let gap = &self.text[usize::from(self.last_end)..usize::from(this_end)];", "        let gap = &self.text[usize::from(self.last_end)..usize::from(self.last_end).min(usize::from(this_end))];")]),
    ("root list not closed", "bug", [(P, "        // Finish expression list\n        self.handle_node_leave(RSyntaxKind::R_EXPRESSION_LIST);\n", "")]),
    ("root still between tokens", "bug", [(P, "        self.between_two_tokens = false;\n", "")]),
    ("walk_next stops at first leave", "bug", [(P, "                    if node == end {\n                        break;\n                    }", "                    let _ = end;\n                    break;")]),
    ("walk_next leaves before break", "bug", [(P, "                    self.handle_leave(node, node.syntax_kind());\n                    if node == end {\n                        break;\n                    }", "                    if node == end {\n                        break;\n                    }\n                    self.handle_leave(node, node.syntax_kind());")]),
    ("walk skips leaves of tokens", "bug", [(P, "                WalkEvent::Leave(node) => self.handle_leave(node, node.syntax_kind()),\n            }\n        }\n    }\n\n    /// Walk only", "                WalkEvent::Leave(node) => {\n                    if node.is_named() {\n                        self.handle_leave(node, node.syntax_kind())\n                    }\n                }\n            }\n        }\n    }\n\n    /// Walk only")]),
    ("next goes up at once", "bug", [(T, "                WalkEvent::Leave(node) => match self.cursor.goto_next_sibling() {\n                    true => WalkEvent::Enter(self.cursor.node()),\n                    false => match", "                WalkEvent::Leave(_) => match false {\n                    true => WalkEvent::Enter(self.cursor.node()),\n                    false => match")] ),
    ("next enters a sibling as leave", "bug", [(T, "                    true => WalkEvent::Enter(self.cursor.node()),\n                    false => WalkEvent::Leave(*node),", "                    true => WalkEvent::Leave(self.cursor.node()),\n                    false => WalkEvent::Leave(*node),")]),
    ("skip keeps going", "bug", [(T, "                    true => WalkEvent::Leave(self.cursor.node()),\n                    false => return None,\n                },\n                WalkEvent::Leave(parent) =>", "                    true => WalkEvent::Enter(self.cursor.node()),\n                    false => return None,\n                },\n                WalkEvent::Leave(parent) =>")]),
    ("drain loses trivia", "bug", [(P, "        (self.events, self.trivia)\n", "        (self.events, Vec::new())\n")]),
    ("start kind lost", "bug", [(P, "        self.push_event(Event::Start {\n            kind,", "        self.push_event(Event::Start {\n            kind: RSyntaxKind::R_BOGUS.max(kind),")]),
    ("tree of another text", "bug", [(P, "    let mut walker = RWalk::new(text);\n", "    let mut walker = RWalk::new(text.trim_end());\n")]),
    ("only root walked", "bug", [(P, "    walker.walk(&mut iter);\n", "    walker.walk_next(&mut iter);\n    let _ = walker.walk_next(&mut iter);\n    if root.child_count() > 9 {\n        walker.walk(&mut iter);\n    }\n")]),
    ("trivia not advanced", "bug", [(P, "                self.push_trivia(Trivia::new(TriviaPieceKind::Whitespace, range, trailing));\n                start = end;\n                continue;", "                self.push_trivia(Trivia::new(TriviaPieceKind::Whitespace, range, trailing));\n                continue;")]),
    ("lone cr dropped", "bug", [(P, "                        // Finish out `\\r`\n                        let range = TextRange::new(start, end);\n                        self.push_trivia(Trivia::new(TriviaPieceKind::Newline, range, trailing));\n                        start = end;", "                        // Finish out `\\r`\n                        start = end;")]),
    ("newline swallowed as whitespace", "bug", [(P, "            Dispatch::WHS => byte != b'\\r' && byte != b'\\n',", "            Dispatch::WHS => byte != b'\\n',")]),
    ("semicolon not trivia", "bug", [(P, "            Dispatch::SEM => true,\n", "")]),
    ("token helper", "same", [(P, WN, "    fn take(&mut self, gap: &str) {\n        self.parse\n            .derive_trivia(gap, self.last_end, self.between_two_tokens);\n    }\n\n" + WN), (P, "        self.parse\n            .derive_trivia(gap, self.last_end, self.between_two_tokens);\n\n        self.parse.token(", "        self.take(gap);\n        self.parse.token(")]),
    ("token order of fields", "same", [(P, "        self.last_end = this_end;\n        self.between_two_tokens = true;", "        self.between_two_tokens = true;\n        self.last_end = this_end;")]),
    ("walk by loop", "same", [(P, "        while let Some(event) = iter.next() {\n            match event {\n                WalkEvent::Enter(node) => self.handle_enter(node, node.syntax_kind(), iter),\n                WalkEvent::Leave(node) => self.handle_leave(node, node.syntax_kind()),\n            }\n        }\n    }\n\n    /// Walk only", "        loop {\n            let Some(event) = iter.next() else {\n                return;\n            };\n            match event {\n                WalkEvent::Leave(node) => self.handle_leave(node, node.syntax_kind()),\n                WalkEvent::Enter(node) => {\n                    let kind = node.syntax_kind();\n                    self.handle_enter(node, kind, iter)\n                }\n            }\n        }\n    }\n\n    /// Walk only")]),
    ("else closed through option", "same", [(P, "        let mut used_else = false;", "        let mut used_else: Option<()> = None;"), (P, "                        used_else = true;", "                        used_else = Some(());"), (P, "        if used_else {", "        if used_else.is_some() {")]),
    ("parameter matched apart", "same", [(P, "                    RSyntaxKind::R_PARAMETER | RSyntaxKind::COMMA | RSyntaxKind::COMMENT => {\n                        self.walk_next(iter)\n                    }", "                    RSyntaxKind::R_PARAMETER => self.walk_next(iter),\n                    RSyntaxKind::COMMA => self.walk_next(iter),\n                    RSyntaxKind::COMMENT => self.walk_next(iter),")]),
    ("holes in line", "same", [(P, "                        self.handle_hole_before_close(last_kind);\n", "                        if matches!(last_kind, RSyntaxKind::COMMA) {\n                            self.parse.start(RSyntaxKind::R_ARGUMENT);\n                            self.parse.finish();\n                        }\n")]),
    ("comment trailing computed", "same", [(P, "        let mut trailing = self.between_two_tokens;\n\n        if gap.contains('\\n') {", "        let newline = gap.contains('\\n');\n        let trailing = self.between_two_tokens && !newline;\n\n        if newline {"), (P, "            trailing = false;\n            self.parse\n", "            self.parse\n")]),
    ("walk_next let else", "same", [(P, "        let end = match iter.peek() {\n            Some(end) => match end {\n                WalkEvent::Enter(end) => *end,\n                WalkEvent::Leave(_) => return,\n            },\n            None => return,\n        };", "        let Some(WalkEvent::Enter(end)) = iter.peek() else {\n            return;\n        };\n        let end = *end;")]),
    ("next by if", "same", [(T, "                WalkEvent::Enter(node) => match self.cursor.goto_first_child() {\n                    true => WalkEvent::Enter(self.cursor.node()),\n                    false => WalkEvent::Leave(*node),\n                },", "                WalkEvent::Enter(node) => {\n                    if !self.cursor.goto_first_child() {\n                        WalkEvent::Leave(*node)\n                    } else {\n                        WalkEvent::Enter(self.cursor.node())\n                    }\n                }")]),
    ("value leave in place", "same", [(P, "            RSyntaxKind::R_DOTS => self.handle_value_leave(node, kind, RSyntaxKind::DOTS),", "            RSyntaxKind::R_DOTS => {\n                self.handle_token(node, RSyntaxKind::DOTS);\n                self.parse.finish();\n            }")]),
    ("blanks before newline lead", "bug", [(P, "                    trailing = true;\n\n                    // Break", "                    trailing = false;\n\n                    // Break")]),
    ("first blanks lost when short", "bug", [(P, "            if start != end {\n", "            if end > start + TextSize::from(1) {\n")]),
    ("start not moved after first", "bug", [(P, "                self.push_trivia(Trivia::new(TriviaPieceKind::Whitespace, range, trailing));\n                start = end;\n            }\n", "                self.push_trivia(Trivia::new(TriviaPieceKind::Whitespace, range, trailing));\n            }\n")]),
    ("crlf one byte", "bug", [(P, "                        // Finish out `\\r\\n`\n                        end += TextSize::from(1);\n", "                        // Finish out `\\r\\n`\n")]),
    ("blank run not counted", "bug", [(P, "is_some() {\n                    end += TextSize::from(1);\n                }", "is_some() {}")]),
    ("newline as blank piece", "bug", [(P, "                // Finish out `\\n`\n                let range = TextRange::new(start, end);\n                self.push_trivia(Trivia::new(TriviaPieceKind::Newline", "                // Finish out `\\n`\n                let range = TextRange::new(start, end);\n                self.push_trivia(Trivia::new(TriviaPieceKind::Whitespace")]),
    ("stop at lf only", "bug", [(P, "                if let b'\\r' | b'\\n' = byte {", "                if let b'\\n' = byte {")]),
    ("piece push in one place", "same", [(P, "    fn is_whitespace(byte: u8) -> bool {", "    fn piece(&mut self, kind: TriviaPieceKind, start: TextSize, end: TextSize, trailing: bool) {\n        self.push_trivia(Trivia::new(kind, TextRange::new(start, end), trailing));\n    }\n\n    fn is_whitespace(byte: u8) -> bool {"), (P, "                // Finish out `\\n`\n                let range = TextRange::new(start, end);\n                self.push_trivia(Trivia::new(TriviaPieceKind::Newline, range, trailing));", "                self.piece(TriviaPieceKind::Newline, start, end, trailing);")]),
    ("lf by comparison", "same", [(P, "            if let b'\\n' = byte {\n                // Finish", "            if *byte == b'\\n' {\n                // Finish")]),
    ("first by less", "same", [(P, "            if start != end {\n", "            if start < end {\n")]),
    ("newline by matches", "same", [(P, "                if let b'\\r' | b'\\n' = byte {", "                if matches!(byte, b'\\n' | b'\\r') {")]),
    ("cr arms joined", "same", [(P, "                match iter.next_if(|byte| **byte == b'\\n') {\n                    Some(_) => {\n                        // Finish out `\\r\\n`\n                        end += TextSize::from(1);\n                        let range = TextRange::new(start, end);\n                        self.push_trivia(Trivia::new(TriviaPieceKind::Newline, range, trailing));\n                        start = end;\n                    }\n                    None => {\n                        // Finish out `\\r`\n                        let range = TextRange::new(start, end);\n                        self.push_trivia(Trivia::new(TriviaPieceKind::Newline, range, trailing));\n                        start = end;\n                    }\n                }\n", "                if iter.next_if(|byte| **byte == b'\\n').is_some() {\n                    end += TextSize::from(1);\n                }\n                let range = TextRange::new(start, end);\n                self.push_trivia(Trivia::new(TriviaPieceKind::Newline, range, trailing));\n                start = end;\n")]),
    ("whitespace by if", "same", [(P, "            Dispatch::WHS => byte != b'\\r' && byte != b'\\n',", "            Dispatch::WHS => !matches!(byte, b'\\r' | b'\\n'),")]),
    ("range first", "same", [(P, "            let range = TextRange::new(start, end);\n                self.push_trivia(Trivia::new(TriviaPieceKind::Whitespace, range, trailing));\n                start = end;\n                continue;", "            let piece = Trivia::new(TriviaPieceKind::Whitespace, TextRange::new(start, end), false);\n                start = end;\n                self.push_trivia(piece);\n                continue;")]),
    ("parse walks inline", "same", [(P, "    let root = ast.root_node();\n    let mut iter = root.preorder();\n    walker.walk(&mut iter);\n\n    let (events, trivia) = walker.parse.drain();\n\n    (events, trivia, None)", "    walker.walk(&mut ast.root_node().preorder());\n    let RParse { events, trivia } = walker.parse;\n    (events, trivia, None)")]),
]
