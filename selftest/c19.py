L = "crates/air_r_formatter/src/lib.rs"
X = "crates/air_r_formatter/src/comments_ext.rs"
RO = "crates/air_r_formatter/src/r/auxiliary/root.rs"
CA = "crates/air_r_formatter/src/r/auxiliary/call.rs"
G = "crates/air_r_formatter/src/generated.rs"
PE = "crates/air_r_formatter/src/r/auxiliary/parenthesized_expression.rs"
GATE = '''        if self.is_suppressed(node, f) {
            return self.fmt_suppressed(node, f);
        }

        self.fmt_leading_comments(node, f)?;
'''
CASES = [
    ("gate after leading", "bug", [(L, GATE, '''        self.fmt_leading_comments(node, f)?;

        if self.is_suppressed(node, f) {
            return self.fmt_suppressed(node, f);
        }
''')]),
    ("suppressed and fields", "bug", [(L, "            return self.fmt_suppressed(node, f);\n", "            self.fmt_suppressed(node, f)?;\n")]),
    ("gate negated", "bug", [(L, "        if self.is_suppressed(node, f) {", "        if !self.is_suppressed(node, f) {")]),
    ("trailing comments of suppressed", "bug", [(L, "            return self.fmt_suppressed(node, f);\n", "            self.fmt_suppressed(node, f)?;\n            return self.fmt_trailing_comments(node, f);\n")]),
    ("table directive asked", "bug", [(L, "        comments.has_skip_directive(node)\n", "        comments.has_table_directive(node)\n")]),
    ("both directives", "bug", [(L, "        comments.has_skip_directive(node)\n", "        comments.has_skip_directive(node) && !comments.has_table_directive(node)\n")]),
    ("first child suppressed", "bug", [(L, "        write!(f, [format_suppressed_node(node.syntax())])", "        let syntax = node.syntax();\n        let syntax = syntax.parent().unwrap_or_else(|| syntax.clone());\n        write!(f, [format_suppressed_node(&syntax)])")]),
    ("table counts as skip", "bug", [(X, "        directives(self, node).any(|d| matches!(d, Directive::Format(FormatDirective::Skip)))", "        directives(self, node).any(|d| matches!(d, Directive::Format(FormatDirective::Skip | FormatDirective::Table)))")]),
    ("trailing comments asked", "bug", [(X, "        .leading_comments(node)\n", "        .trailing_comments(node)\n")]),
    ("only the last comment", "bug", [(X, "        directives(self, node).any(|d| matches!(d, Directive::Format(FormatDirective::Skip)))", "        directives(self, node).last().is_some_and(|d| matches!(d, Directive::Format(FormatDirective::Skip)))")]),
    ("every comment", "bug", [(X, "        directives(self, node).any(|d| matches!(d, Directive::Format(FormatDirective::Skip)))", "        directives(self, node).all(|d| matches!(d, Directive::Format(FormatDirective::Skip)))")]),
    ("not in binary", "bug", [(X, "            | RSyntaxKind::R_ARGUMENT_LIST\n            | RSyntaxKind::R_BINARY_EXPRESSION\n", "            | RSyntaxKind::R_ARGUMENT_LIST\n")]),
    ("parameters too", "bug", [(X, "            | RSyntaxKind::R_ARGUMENT_LIST\n", "            | RSyntaxKind::R_ARGUMENT_LIST\n            | RSyntaxKind::R_PARAMETER_LIST\n")]),
    ("namespaced ignored", "bug", [(X, "            AnyRSelector::RIdentifier(node) => pred(node, options)?,\n            _ => false,", "            AnyRSelector::RIdentifier(_) => false,\n            _ => false,")]),
    ("left of namespace", "bug", [(X, "        AnyRExpression::RNamespaceExpression(node) => match node.right()? {", "        AnyRExpression::RNamespaceExpression(node) => match node.left()? {")]),
    ("table for skip", "bug", [(X, "    in_setting(node, f.options().skip(), pred)", "    in_setting(node, f.options().skip().filter(|_| f.options().table().is_some()), pred)")]),
    ("call and", "bug", [(CA, "comments.has_skip_directive(node.syntax()) || in_skip_setting", "comments.has_skip_directive(node.syntax()) && in_skip_setting")]),
    ("call without directive", "bug", [(CA, "        comments.has_skip_directive(node.syntax()) || in_skip_setting(node, f).unwrap_or(false)", "        in_skip_setting(node, f).unwrap_or_else(|_| comments.has_skip_directive(node.syntax()))")]),
    ("call on error", "bug", [(CA, "in_skip_setting(node, f).unwrap_or(false)", "in_skip_setting(node, f).unwrap_or(true)")]),
    ("call by table", "bug", [(CA, "in_skip_setting(node, f).unwrap_or(false)", "in_table_setting(node, f).unwrap_or(false)")]),
    ("file by first only", "bug", [(RO, "            if Self::is_suppression_directive(parse_comment_directive(comment)) {\n                return true;\n            }", "            let _ = comment;")]),
    ("generated anywhere", "bug", [(RO, "            if Self::is_suppression_directive(parse_comment_directive(comment)) {", "            if Self::is_suppression_directive(parse_special_skip_file(comment).or_else(|| parse_comment_directive(comment))) {")]),
    ("any directive on file", "bug", [(RO, "matches!(\n", "matches!(\n")] if False else [(RO, "            parse_special_skip_file(first_line).or_else(|| parse_comment_directive(first_line)),", "            parse_special_skip_file(first_line),")]),
    ("last expression", "bug", [(RO, "        let Some(child) = node.expressions().first() else {", "        let Some(child) = node.expressions().last() else {")]),
    ("trailing comments of the first", "bug", [(RO, "            .leading_comments(child.syntax())", "            .trailing_comments(child.syntax())")]),
    ("root comments", "bug", [(RO, "            .leading_comments(child.syntax())", "            .leading_comments(node.syntax())")]),
    ("trimmed file", "bug", [(RO, "        let text: String = syntax.text_with_trivia().into();", "        let text: String = syntax.text_trimmed().into();")]),
    ("not normalised", "bug", [(RO, "            LineEnding::Crlf => line_ending::normalize(text),", "            LineEnding::Crlf => text,")]),
    ("file and fields", "bug", [(RO, "        dynamic_text(&text, start).fmt(f)", "        dynamic_text(&text, start).fmt(f)?;\n        self.fmt_fields(node, f)")]),
    ("round the gate", "bug", [(G, "        FormatNodeRule::<air_r_syntax::RArgument>::fmt(self, node, f)", "        FormatNodeRule::<air_r_syntax::RArgument>::fmt_fields(self, node, f)")]),
    ("never suppressed", "bug", [(PE, "    fn fmt_fields(", "    fn is_suppressed(&self, _node: &RParenthesizedExpression, _f: &RFormatter) -> bool {\n        false\n    }\n\n    fn fmt_fields(")]),
    ("match", "same", [(L, GATE, '''        match self.is_suppressed(node, f) {
            true => return self.fmt_suppressed(node, f),
            false => {}
        }

        self.fmt_leading_comments(node, f)?;
''')]),
    ("loop", "same", [(X, "        directives(self, node).any(|d| matches!(d, Directive::Format(FormatDirective::Skip)))", "        for d in directives(self, node) {\n            if let Directive::Format(FormatDirective::Skip) = d {\n                return true;\n            }\n        }\n        false")]),
    ("one expression", "same", [(X, '''        if !can_have_directive(node) {
            return false;
        }

        directives(self, node).any(|d| matches!(d, Directive::Format(FormatDirective::Skip)))''', '''        can_have_directive(node)
            && directives(self, node).any(|d| d == Directive::Format(FormatDirective::Skip))''')]),
    ("options and then", "same", [(CA, "        comments.has_skip_directive(node.syntax()) || in_skip_setting(node, f).unwrap_or(false)", "        if comments.has_skip_directive(node.syntax()) {\n            return true;\n        }\n        in_skip_setting(node, f) == Ok(true)")]),
    ("any over the rest", "same", [(RO, '''        for comment in comments {
            if Self::is_suppression_directive(parse_comment_directive(comment)) {
                return true;
            }
        }

        false''', '''        comments.any(|comment| Self::is_suppression_directive(parse_comment_directive(comment)))''')]),
    ("is some and", "same", [(X, '''    let Some(parent) = node.parent() else {
        return false;
    };
''', '''    let parent = match node.parent() {
        Some(parent) => parent,
        None => return false,
    };
''')]),
    ("normalize always", "same", [(RO, '''        let text = match line_ending::infer(&text) {
            LineEnding::Lf => text,
            LineEnding::Crlf => line_ending::normalize(text),
        };
''', '''        let text = if line_ending::infer(&text) == LineEnding::Lf {
            text
        } else {
            line_ending::normalize(text)
        };
''')]),
]
