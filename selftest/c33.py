S = "crates/air_r_formatter/src/"
D = S + "r/auxiliary/"
L = S + "lib.rs"
C = S + "comments.rs"
BI = D + "binary_expression.rs"
BR = D + "braced_expressions.rs"
CA = D + "call_arguments.rs"
PA = D + "parameters.rs"
W = D + "while_statement.rs"
RP = D + "repeat_statement.rs"
ID = "    if body.syntax() == preceding {\n"
CASES = [
    ("gate drops dangling", "bug", [(L, "        self.fmt_dangling_comments(node, f)?;\n        self.fmt_trailing", "        self.fmt_trailing")]),
    ("gate drops trailing of leaves", "bug", [(L, "        self.fmt_trailing_comments(node, f)\n", "        if node.syntax().first_child().is_none() {\n            return Ok(());\n        }\n        self.fmt_trailing_comments(node, f)\n")]),
    ("gate leading twice", "bug", [(L, "        self.fmt_leading_comments(node, f)?;\n", "        self.fmt_leading_comments(node, f)?;\n        self.fmt_leading_comments(node, f)?;\n")]),
    ("default trailing is dangling", "bug", [(L, "        format_trailing_comments(node.syntax()).fmt(f)", "        format_dangling_comments(node.syntax()).fmt(f)")]),
    ("default leading of root", "bug", [(L, "        format_leading_comments(node.syntax()).fmt(f)", "        match node.syntax().parent() {\n            Some(_) => format_leading_comments(node.syntax()).fmt(f),\n            None => Ok(()),\n        }")]),
    ("dangling of an empty call lost", "bug", [(CA, "                    format_dangling_comments(self.syntax()).with_soft_block_indent(),\n", "")]),
    ("dangling of parameters lost", "bug", [(PA, "                    format_dangling_comments(node.syntax()).with_soft_block_indent(),\n", "")]),
    ("dangling of braces lost", "bug", [(BR, "        if comments.has_dangling_comments(node.syntax()) {", "        if comments.dangling_comments(node.syntax()).len() > 1 {")]),
    ("curly-curly leading lost", "bug", [(BR, "            format_leading_comments(node_inner),\n", "")]),
    ("curly-curly trailing lost", "bug", [(BR, "            format_trailing_comments(node_inner),\n", "")]),
    ("curly-curly comments of another", "bug", [(BR, "            format_trailing_comments(node_inner),\n", "            format_trailing_comments(expression.syntax_list().node()),\n")]),
    ("chain trailing lost", "bug", [(BI, "                write!(f, [format_trailing_comments(enclosing.syntax())])?;", "                let _ = enclosing;")]),
    ("chain node not kept", "bug", [(BI, "            enclosing: Some(node.clone()),", "            enclosing: None,")]),
    ("while overrides dangling", "bug", [(W, "impl FormatNodeRule<RWhileStatement> for FormatRWhileStatement {\n", "impl FormatNodeRule<RWhileStatement> for FormatRWhileStatement {\n    fn fmt_dangling_comments(&self, _: &RWhileStatement, _: &mut RFormatter) -> FormatResult<()> {\n        Ok(())\n    }\n\n")]),
    ("repeat overrides trailing", "bug", [(RP, "impl FormatNodeRule<RRepeatStatement> for FormatRRepeatStatement {\n", "impl FormatNodeRule<RRepeatStatement> for FormatRRepeatStatement {\n    fn fmt_trailing_comments(&self, _: &RRepeatStatement, _: &mut RFormatter) -> FormatResult<()> {\n        Ok(())\n    }\n\n")]),
    ("parameters keep default too", "bug", [(PA, "    fn fmt_dangling_comments(&self, _: &RParameters, _: &mut RFormatter) -> FormatResult<()> {", "    fn fmt_dangling_comments(&self, node: &RParameters, f: &mut RFormatter) -> FormatResult<()> {\n        format_dangling_comments(node.syntax()).fmt(f)?;")]),
    ("text trimmed", "bug", [(C, "        write!(f, [comment.piece().as_piece()])", "        let _ = comment;\n        write!(f, [text(\"#\")])")]),
    ("text of long ones only", "bug", [(C, "        write!(f, [comment.piece().as_piece()])", "        if comment.piece().text().len() < 2 {\n            return Ok(());\n        }\n        write!(f, [comment.piece().as_piece()])")]),
    ("dangles from filled braces", "bug", [(C, "        AnyRExpression::RBracedExpressions(body) => match body.expressions().first() {\n            Some(first) => CommentPlacement::leading(first.into_syntax(), comment),\n            None => CommentPlacement::dangling(body.into_syntax(), comment),\n        },", "        AnyRExpression::RBracedExpressions(body) => {\n            CommentPlacement::dangling(body.into_syntax(), comment)\n        }")]),
    ("leads a list", "bug", [(C, "        AnyRExpression::RBracedExpressions(body) => match body.expressions().first() {\n            Some(first) => CommentPlacement::leading(first.into_syntax(), comment),\n", "        AnyRExpression::RBracedExpressions(body) => match body.expressions().first() {\n            Some(_) => CommentPlacement::leading(body.expressions().syntax_list().node().clone(), comment),\n")]),
    ("panics at the end of a line", "bug", [(C, "                CommentTextPosition::EndOfLine => {\n                    place_leading_or_dangling_body_comment(consequence, comment)\n                }\n                // Own line comments lead the `alternative` body", "                CommentTextPosition::EndOfLine => {\n                    unreachable!(\"no\")\n                }\n                // Own line comments lead the `alternative` body")]),
    ("gate with a binding", "same", [(L, "        self.fmt_trailing_comments(node, f)\n", "        let written = self.fmt_trailing_comments(node, f);\n        written\n")]),
    ("gate without question marks", "same", [(L, "        self.fmt_dangling_comments(node, f)?;\n        self.fmt_trailing_comments(node, f)\n", "        self.fmt_dangling_comments(node, f)\n            .and_then(|()| self.fmt_trailing_comments(node, f))\n")]),
    ("default written", "same", [(L, "        format_trailing_comments(node.syntax()).fmt(f)", "        write!(f, [format_trailing_comments(node.syntax())])")]),
    ("handlers in one place", "same", [(C, "        match comment.text_position() {\n            CommentTextPosition::EndOfLine => handle_for_comment(comment)\n                .or_else(handle_function_comment)\n                .or_else(handle_while_comment)\n                .or_else(handle_repeat_comment)\n                .or_else(handle_if_statement_comment)\n                .or_else(handle_else_clause_comment)\n                .or_else(handle_parenthesized_expression_comment)\n                .or_else(handle_argument_name_clause_comment)\n                .or_else(handle_argument_comment)\n                .or_else(handle_hole_argument_comment),\n            CommentTextPosition::OwnLine => ", "        match comment.text_position() {\n            CommentTextPosition::EndOfLine | CommentTextPosition::OwnLine => ")]),
    ("body helper by is_empty", "same", [(C, "        AnyRExpression::RBracedExpressions(body) => match body.expressions().first() {\n            Some(first) => CommentPlacement::leading(first.into_syntax(), comment),\n            None => CommentPlacement::dangling(body.into_syntax(), comment),\n        },", "        AnyRExpression::RBracedExpressions(body) => {\n            if let Some(first) = body.expressions().first() {\n                return CommentPlacement::leading(first.into_syntax(), comment);\n            }\n            CommentPlacement::dangling(body.into_syntax(), comment)\n        }")]),
    ("paren body order", "same", [(C, "        if body.syntax() == following {\n            return CommentPlacement::leading(following.clone(), comment);", "        if following == body.syntax() {\n            return CommentPlacement::leading(body.into_syntax(), comment);")]),
    ("braces without the variant", "same", [(BR, "        if comments.has_dangling_comments(node.syntax()) {\n            return BracedExpressionsVariant::EmptyWithDanglingComments;\n        } else {\n            return BracedExpressionsVariant::Empty;\n        }", "        return match comments.has_dangling_comments(node.syntax()) {\n            true => BracedExpressionsVariant::EmptyWithDanglingComments,\n            false => BracedExpressionsVariant::Empty,\n        };")]),
    ("chain comments by a match", "same", [(BI, "            if let Some(enclosing) = enclosing {\n                write!(f, [format_trailing_comments(enclosing.syntax())])?;\n            }", "            match enclosing {\n                Some(node) => write!(f, [format_trailing_comments(node.syntax())])?,\n                None => (),\n            }")]),
]
