L = "crates/biome_ungrammar/src/lexer.rs"
P = "crates/biome_ungrammar/src/parser.rs"
E = "crates/biome_ungrammar/src/error.rs"
B = "crates/biome_ungrammar/src/lib.rs"
LOC = """        match text.rfind('\\n') {
            Some(idx) => {
                self.line += text.bytes().filter(|byte| *byte == b'\\n').count();
                self.column = text[idx + 1..].chars().count();
            }
            None => self.column += text.chars().count(),
        }"""
COMM = """    if input.starts_with("//") {
        let idx = input.find('\\n').map_or(input.len(), |it| it + 1);
        *input = &input[idx..]
    }"""
TOK = """                Ok(kind) => {
                    res.push(Token { kind, loc });
                }
                Err(err) => return Err(err.with_location(loc)),"""
BAR = """        '|' => match chars.clone().next() {
            Some('|') => {
                chars.next();
                TokenKind::DoublePipe
            }
            _ => TokenKind::Pipe,
        },"""
STR = """            loop {
                match chars.next() {
                    None => bail!("unclosed token literal"),
                    Some('\\\\') => match chars.next() {
                        Some(c) if is_escapable(c) => buf.push(c),
                        _ => bail!("invalid escape in token literal"),
                    },
                    Some('\\'') => break,
                    Some(c) => buf.push(c),
                }
            }"""
ID = """            loop {
                match chars.clone().next() {
                    Some(c) if is_ident_char(c) => {
                        chars.next();
                        buf.push(c);
                    }
                    _ => break,
                }
            }"""
DUP = """    if !matches!(p.grammar[node].rule, DUMMY_RULE) {
        bail!(token.loc, "duplicate rule: `{}`", p.grammar[node].name)
    }
"""
UND = """        for node_data in &self.grammar.nodes {
            if matches!(node_data.rule, DUMMY_RULE) {
                crate::error::bail!("Undefined node: {}", node_data.name)
            }
        }"""
MIX = "Some(kind) if kind != token_combinator => {"
SEQ = """    let mut seq = vec![lhs];
    while let Some(rule) = opt_atom_rule(p)? {
        seq.push(rule)
    }
    let res = if seq.len() == 1 {
        seq.pop().unwrap()
    } else {
        Rule::Seq(seq)
    };
    Ok(res)"""
FIN = """    let res = if rules.len() == 1 {
        rules.pop().unwrap()
    } else {
        match combinator_kind {
            Some(CombinatorKind::DoubleAmpersand) => Rule::UnorderedAll(rules),
            Some(CombinatorKind::DoublePipe) => Rule::UnorderedSome(rules),
            Some(CombinatorKind::Pipe) => Rule::Alt(rules),
            None | Some(CombinatorKind::NonCombinator) => {
                unreachable!("Matched more than one rule but didn't determine a combinator")
            }
        }
    };
    Ok(res)"""
EQ2 = """            match p.peek_n(1) {
                Some(token) if token.kind == TokenKind::Eq => return Ok(None),
                _ => (),
            }
"""
ATOM = """    match opt_atom_rule(p)? {
        Some(it) => Ok(it),
        None => {
            let token = p.bump()?;
            bail!(token.loc, "unexpected token")
        }
    }"""
INT = """        let len = self.node_table.len();
        let grammar = &mut self.grammar;
        *self.node_table.entry(name.clone()).or_insert_with(|| {
            grammar.nodes.push(NodeData {
                name,
                rule: DUMMY_RULE,
            });
            Node(len)
        })"""
CASES = [
    ("escape letters", "bug", [(L, "matches!(c, '\\\\' | '\\'')", "matches!(c, '\\\\' | '\\'' | 'n')")]),
    ("escape quote lost", "bug", [(L, "matches!(c, '\\\\' | '\\'')", "matches!(c, '\\\\')")]),
    ("escape keeps backslash", "bug", [(L, "Some(c) if is_escapable(c) => buf.push(c)", "Some(c) if is_escapable(c) => { buf.push('\\\\'); buf.push(c) }")]),
    ("newline ends literal", "bug", [(L, "None => bail!(\"unclosed token literal\"),", "None | Some('\\n') => bail!(\"unclosed token literal\"),")]),
    ("unclosed accepted", "bug", [(L, "None => bail!(\"unclosed token literal\"),", "None => break,")]),
    ("ident digits", "bug", [(L, "'a'..='z' | 'A'..='Z' | '_' | '0'..='9'", "'a'..='z' | 'A'..='Z' | '_' | '1'..='9'")]),
    ("ident dash", "bug", [(L, "'a'..='z' | 'A'..='Z' | '_' | '0'..='9'", "'a'..='z' | 'A'..='Z' | '_' | '-' | '0'..='9'")]),
    ("ident alphanumeric", "bug", [(L, "matches!(c, 'a'..='z' | 'A'..='Z' | '_' | '0'..='9')", "c.is_alphanumeric() || c == '_'")]),
    ("double pipe not consumed", "bug", [(L, BAR, BAR.replace("                chars.next();\n", ""))]),
    ("single amp", "bug", [(L, "_ => bail!(\"unexpected `&`, did you mean to write `&&`?\"),", "_ => TokenKind::DoubleAmpersand,")]),
    ("colon is eq", "bug", [(L, "':' => TokenKind::Colon", "':' => TokenKind::Eq")]),
    ("first char lost", "bug", [(L, "            buf.push(c);\n            loop", "            if c != '_' { buf.push(c); }\n            loop")]),
    ("cr blank", "bug", [(L, "matches!(c, ' ' | '\\t' | '\\n')", "matches!(c, ' ' | '\\t' | '\\n' | '\\r')")]),
    ("tab not blank", "bug", [(L, "matches!(c, ' ' | '\\t' | '\\n')", "matches!(c, ' ' | '\\n')")]),
    ("single slash comment", "bug", [(L, 'starts_with("//")', "starts_with('/')")]),
    ("comment to eof", "bug", [(L, "input.find('\\n').map_or(input.len(), |it| it + 1)", "input.find(\"\\n\\n\").map_or(input.len(), |it| it + 1)")]),
    ("comment end without newline", "bug", [(L, "map_or(input.len(), |it| it + 1)", "map_or(2, |it| it + 1)")]),
    ("column bytes", "bug", [(L, "None => self.column += text.chars().count()", "None => self.column += text.len()")]),
    ("column bytes after newline", "bug", [(L, "self.column = text[idx + 1..].chars().count()", "self.column = text[idx + 1..].len()")]),
    ("first newline", "bug", [(L, "text.rfind('\\n')", "text.find('\\n')")]),
    ("one line only", "bug", [(L, "self.line += text.bytes().filter(|byte| *byte == b'\\n').count()", "self.line += 1")]),
    ("column added", "bug", [(L, "self.column = text[idx + 1..]", "self.column += text[idx + 1..]")]),
    ("column at newline", "bug", [(L, "text[idx + 1..].chars()", "text[idx..].chars()")]),
    ("loc after", "bug", [(L, TOK, """                Ok(kind) => {
                    loc.advance(&old_input[..old_input.len() - input.len()]);
                    res.push(Token { kind, loc });
                    continue;
                }
                Err(err) => return Err(err.with_location(loc)),""")]),
    ("lexer error no loc", "bug", [(L, "Err(err) => return Err(err.with_location(loc))", "Err(err) => return Err(err)")]),
    ("lexer error skipped", "bug", [(L, "Err(err) => return Err(err.with_location(loc))", "Err(err) => { if res.is_empty() { return Err(err.with_location(loc)) } break }")]),
    ("mixed allowed", "bug", [(P, MIX, "Some(kind) if kind != token_combinator && kind != CombinatorKind::Pipe => {")]),
    ("last combinator", "bug", [(P, "None => combinator_kind = Some(token_combinator),\n            _ => (),", "_ => combinator_kind = Some(token_combinator),"), (P, MIX, "Some(kind) if kind != token_combinator && rules.len() > 2 => {")]),
    ("combinators swapped", "bug", [(P, "Some(CombinatorKind::DoubleAmpersand) => Rule::UnorderedAll(rules),\n            Some(CombinatorKind::DoublePipe) => Rule::UnorderedSome(rules),", "Some(CombinatorKind::DoubleAmpersand) => Rule::UnorderedSome(rules),\n            Some(CombinatorKind::DoublePipe) => Rule::UnorderedAll(rules),")]),
    ("combinator kind", "bug", [(L, "TokenKind::DoublePipe => CombinatorKind::DoublePipe,", "TokenKind::DoublePipe => CombinatorKind::Pipe,")]),
    ("two is one", "bug", [(P, "if rules.len() == 1 {", "if rules.len() <= 2 {")]),
    ("seq drop", "bug", [(P, "let res = if seq.len() == 1 {", "let res = if seq.len() <= 2 {")]),
    ("seq insert", "bug", [(P, "        seq.push(rule)\n", "        seq.insert(0, rule)\n")]),
    ("opt rep swapped", "bug", [(P, "res = Rule::Opt(Box::new(res));", "res = Rule::Rep(Box::new(res));")]),
    ("suffix not taken", "bug", [(P, "                p.bump()?;\n                res = Rule::Opt", "                res = Rule::Opt")]),
    ("no star after group", "bug", [(P, "            p.expect(TokenKind::RParen, \")\")?;\n            rule\n", "            p.expect(TokenKind::RParen, \")\")?;\n            return Ok(Some(rule))\n")]),
    ("group unclosed", "bug", [(P, "            p.expect(TokenKind::RParen, \")\")?;\n            rule\n", "            p.expect(TokenKind::RParen, \")\").ok();\n            rule\n")]),
    ("duplicate ignored", "bug", [(P, DUP, "")]),
    ("duplicate by length", "bug", [(P, "    p.grammar.nodes[node.0].rule = rule;", "    if p.grammar.nodes.len() > node.0 + 1 { p.grammar.nodes[node.0].rule = rule; }")]),
    ("undefined ignored", "bug", [(P, UND, "")]),
    ("undefined skip last", "bug", [(P, "for node_data in &self.grammar.nodes {", "for node_data in self.grammar.nodes.iter().skip(1) {")]),
    ("not reversed", "bug", [(P, "    fn new(mut tokens", "    fn new(tokens"), (P, "        tokens.reverse();\n", "")]),
    ("expect position", "bug", [(P, 'bail!(token.loc, "unexpected token, expected `{}`", what);', 'return Err(format_err!("unexpected token, expected `{}`", what));')]),
    ("expect lenient", "bug", [(P, "        if token.kind != kind {", "        if std::mem::discriminant(&token.kind) != std::mem::discriminant(&kind) && what != \")\" {")]),
    ("display zero", "bug", [(E, "loc.line + 1, loc.column + 1", "loc.line + 1, loc.column")]),
    ("display swapped", "bug", [(E, "loc.line + 1, loc.column + 1", "loc.column + 1, loc.line + 1")]),
    ("message lost", "bug", [(E, "            location: Some(location),\n            ..self\n", "            location: self.location.or(Some(location)),\n            message: String::new(),\n")]),
    ("index off", "bug", [(P, "            Node(len)\n", "            Node(len + 1)\n")]),
    ("same table", "bug", [(P, "*self.token_table.entry(name.clone())", "*self.token_table.entry(name.to_lowercase())")]),
    ("label as node", "bug", [(P, "TokenKind::Colon => {", "TokenKind::Colon if p.peek_n(2).is_some() => {")]),
    ("label lost", "bug", [(P, "                        return Ok(Some(res));", "                        let Rule::Labeled { rule, .. } = res else { unreachable!() };\n                        return Ok(Some(*rule));")]),
    ("eq lookahead", "bug", [(P, "TokenKind::Eq => return Ok(None),", ""), (P, EQ2, "")]),
    ("combinator first", "same", [(P, "        kind: TokenKind::Pipe | TokenKind::DoubleAmpersand | TokenKind::DoublePipe,\n        loc,", "        kind: TokenKind::Pipe,\n        loc,")]),
    # behaviour kept
    ("second eq test", "same", [(P, EQ2, "")]),
    ("location by count", "same", [(L, LOC, """        if let Some(idx) = text.rfind('\\n') {
            self.line += text.matches('\\n').count();
            self.column = text[idx + 1..].chars().count();
        } else {
            self.column += text.chars().count();
        }""")]),
    ("location loop", "same", [(L, LOC, """        for c in text.chars() {
            if c == '\\n' {
                self.line += 1;
                self.column = 0;
            } else {
                self.column += 1;
            }
        }""")]),
    ("comment if let", "same", [(L, COMM, """    if !input.starts_with("//") {
        return;
    }
    let end = match input.find('\\n') {
        Some(it) => it + 1,
        None => input.len(),
    };
    *input = &input[end..];""")]),
    ("push ?", "same", [(L, """            match advance(&mut input) {
""" + TOK + """
            }
""", """            let kind = advance(&mut input).map_err(|err| err.with_location(loc))?;
            res.push(Token { kind, loc });
""")]),
    ("consumed var", "same", [(L, """        if old_input.len() == input.len() {
            match""", """        let skipped = old_input.len() - input.len();
        if skipped == 0 {
            match""")]),
    ("bar if", "same", [(L, BAR, """        '|' => {
            if chars.as_str().starts_with('|') {
                chars.next();
                TokenKind::DoublePipe
            } else {
                TokenKind::Pipe
            }
        }""")]),
    ("bar clone var", "same", [(L, BAR, """        '|' => {
            let next = chars.clone().next();
            if next == Some('|') {
                chars.next();
                TokenKind::DoublePipe
            } else {
                TokenKind::Pipe
            }
        }""")]),
    ("ident while", "same", [(L, ID, """            while let Some(c) = chars.clone().next() {
                if !is_ident_char(c) {
                    break;
                }
                chars.next();
                buf.push(c);
            }""")]),
    ("ident helper", "same", [(L, "            let mut buf = String::new();\n            buf.push(c);\n" + ID + "\n            TokenKind::Node(buf)", "            TokenKind::Node(identifier(c, &mut chars))"),
                              (L, "fn is_escapable", "fn identifier(c: char, chars: &mut std::str::Chars<'_>) -> String {\n            let mut buf = String::from(c);\n" + ID + "\n            buf\n}\nfn is_escapable")]),
    ("ident ascii", "same", [(L, "matches!(c, 'a'..='z' | 'A'..='Z' | '_' | '0'..='9')", "c.is_ascii_alphanumeric() || c == '_'")]),
    ("string helper", "same", [(L, "            let mut buf = String::new();\n" + STR + "\n            TokenKind::Token(buf)", "            TokenKind::Token(literal(&mut chars)?)"),
                              (L, "fn is_escapable", "fn literal(chars: &mut std::str::Chars<'_>) -> Result<String> {\n            let mut buf = String::new();\n" + STR + "\n            Ok(buf)\n}\nfn is_escapable")]),
    ("undefined find", "same", [(P, UND, """        if let Some(node_data) = self.grammar.nodes.iter().find(|it| matches!(it.rule, DUMMY_RULE)) {
            crate::error::bail!("Undefined node: {}", node_data.name)
        }""")]),
    ("seq match", "same", [(P, SEQ, """    let mut seq = vec![lhs];
    loop {
        match opt_atom_rule(p)? {
            Some(rule) => seq.push(rule),
            None => break,
        }
    }
    if seq.len() > 1 {
        return Ok(Rule::Seq(seq));
    }
    Ok(seq.pop().unwrap())""")]),
    ("rule finish helper", "same", [(P, FIN, "    Ok(combine(rules, combinator_kind))"), (P, "/// Parse a multi-element sequence as", "fn combine(mut rules: Vec<Rule>, combinator_kind: Option<CombinatorKind>) -> Rule {\n" + FIN.replace("    Ok(res)", "    res") + "\n}\n\n/// Parse a multi-element sequence as")]),
    ("rule finish match", "same", [(P, FIN, """    if rules.len() == 1 {
        return Ok(rules.pop().unwrap());
    }
    let res = match combinator_kind {
        Some(CombinatorKind::Pipe) => Rule::Alt(rules),
        Some(CombinatorKind::DoublePipe) => Rule::UnorderedSome(rules),
        Some(CombinatorKind::DoubleAmpersand) => Rule::UnorderedAll(rules),
        _ => unreachable!("Matched more than one rule but didn't determine a combinator"),
    };
    Ok(res)""")]),
    ("mix if", "same", [(P, """        match combinator_kind {
            Some(kind) if kind != token_combinator => {
                bail!(
                    token.loc,
                    "Cannot mix combinators at the same level in a Rule. Use parentheses to specify precedence"
                );
            }
            None => combinator_kind = Some(token_combinator),
            _ => (),
        }
""", """        let kind = *combinator_kind.get_or_insert(token_combinator);
        if kind != token_combinator {
            bail!(
                token.loc,
                "Cannot mix combinators at the same level in a Rule. Use parentheses to specify precedence"
            );
        }
""")]),
    ("atom if let", "same", [(P, ATOM, """    if let Some(it) = opt_atom_rule(p)? {
        return Ok(it);
    }
    let token = p.bump()?;
    bail!(token.loc, "unexpected token")""")]),
    ("atom let else", "same", [(P, ATOM, """    let Some(it) = opt_atom_rule(p)? else {
        let token = p.bump()?;
        bail!(token.loc, "unexpected token")
    };
    Ok(it)""")]),
    ("column loop reset 1", "bug", [(L, LOC, """        for c in text.chars() {
            if c == '\\n' {
                self.line += 1;
                self.column = 1;
            } else {
                self.column += 1;
            }
        }""")]),
    ("intern get index", "bug", [(P, INT, """        if let Some(node) = self.node_table.get(&name) {
            return *node;
        }
        let node = Node(self.grammar.nodes.len());
        self.grammar.nodes.push(NodeData {
            name: name.clone(),
            rule: DUMMY_RULE,
        });
        node""")]),
    ("intern get", "same", [(P, INT, """        if let Some(node) = self.node_table.get(&name) {
            return *node;
        }
        let node = Node(self.grammar.nodes.len());
        self.grammar.nodes.push(NodeData {
            name: name.clone(),
            rule: DUMMY_RULE,
        });
        self.node_table.insert(name, node);
        node""")]),
    ("dup helper", "same", [(P, DUP, """    if p.is_defined(node) {
        bail!(token.loc, "duplicate rule: `{}`", p.grammar[node].name)
    }
"""), (P, "    fn is_eof(&self)", "    fn is_defined(&self, node: Node) -> bool {\n        !matches!(self.grammar.nodes[node.0].rule, DUMMY_RULE)\n    }\n    fn is_eof(&self)")]),
    ("peek last", "same", [(P, "        self.peek_n(0)", "        self.tokens.last()")]),
    ("peek_n get", "same", [(P, "self.tokens.iter().nth_back(n)", "self.tokens.iter().rev().nth(n)")]),
    ("bump match", "same", [(P, """        self.tokens
            .pop()
            .ok_or_else(|| format_err!("unexpected EOF"))""", """        match self.tokens.pop() {
            Some(token) => Ok(token),
            None => Err(format_err!("unexpected EOF")),
        }""")]),
    ("parse loop", "same", [(P, "    while !p.is_eof() {\n        node(&mut p)?;\n    }", "    loop {\n        if p.is_eof() {\n            break;\n        }\n        node(&mut p)?;\n    }")]),
    ("comb is_combinator", "same", [(P, "        if matches!(token_combinator, CombinatorKind::NonCombinator) {\n            break;\n        }", "        if token_combinator == CombinatorKind::NonCombinator {\n            break;\n        }")]),
    ("display match", "same", [(E, """        if let Some(loc) = self.location {
            // Report 1-based indices, to match text editors
            write!(f, "{}:{}: ", loc.line + 1, loc.column + 1)?
        }
        write!(f, "{}", self.message)""", """        match self.location {
            Some(loc) => write!(f, "{}:{}: {}", loc.line + 1, loc.column + 1, self.message),
            None => f.write_str(&self.message),
        }""")]),
]
