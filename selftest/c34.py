F = "crates/air_r_formatter/src/r/auxiliary/binary_expression.rs"
ARROW_EQ = '''            LeftAssignmentKind::Equal => format_replaced(
                operator,
                &dynamic_text("<-", operator.text_trimmed_range().start()),
            )
            .fmt(f),
            LeftAssignmentKind::Arrow => {
                // Already matches style
                operator.format().fmt(f)
            }'''
SAFE = '''                if can_normalize_to_equal(node) {
                    format_replaced(
                        operator,
                        &dynamic_text("=", operator.text_trimmed_range().start()),
                    )
                    .fmt(f)
                } else {
                    operator.format().fmt(f)
                }'''
CASES = [
    ("equal everywhere", "bug", [(F, "                if can_normalize_to_equal(node) {", "                if can_normalize_to_equal(node) || !node.syntax().is_leading_kind() {".replace(" || !node.syntax().is_leading_kind()", " || operator.kind() == RSyntaxKind::ASSIGN"))]),
    ("equal nowhere", "bug", [(F, SAFE, "                operator.format().fmt(f)")]),
    ("negated", "bug", [(F, "                if can_normalize_to_equal(node) {", "                if !can_normalize_to_equal(node) {")]),
    ("arrow text", "bug", [(F, '&dynamic_text("<-", operator', '&dynamic_text("<<-", operator')]),
    ("equal text", "bug", [(F, '&dynamic_text("=", operator', '&dynamic_text(":=", operator')]),
    ("preserve rewrites", "bug", [(F, '''        AssignmentStyle::Preserve => {
            // Preserve as is
            operator.format().fmt(f)
        }''', '''        AssignmentStyle::Preserve => {
            format_replaced(operator, &dynamic_text("<-", operator.text_trimmed_range().start())).fmt(f)
        }''')]),
    ("super assignment", "bug", [(F, "        RSyntaxKind::ASSIGN => {\n            fmt_left", "        RSyntaxKind::ASSIGN | RSyntaxKind::SUPER_ASSIGN => {\n            fmt_left")]),
    ("walrus as equal", "bug", [(F, "        RSyntaxKind::EQUAL => {\n            fmt_left", "        RSyntaxKind::EQUAL | RSyntaxKind::WALRUS => {\n            fmt_left")]),
    ("kinds swapped", "bug", [(F, "fmt_left_assignment_operator(node, &operator, LeftAssignmentKind::Arrow, f)", "fmt_left_assignment_operator(node, &operator, LeftAssignmentKind::Equal, f)")]),
    ("operand always", "bug", [(F, "        && body.syntax() == node\n    {\n        return true;\n    }\n\n    // i.e. `if (cond) x <- 1` to", "    {\n        let _ = body;\n        return true;\n    }\n\n    // i.e. `if (cond) x <- 1` to")]),
    ("if condition", "bug", [(F, "        && let Ok(consequence) = parent.consequence()\n        && consequence.syntax() == node", "        && let Ok(consequence) = parent.condition()\n        && consequence.syntax() == node")]),
    ("for sequence", "bug", [(F, "    if let Some(parent) = RForStatement::cast_ref(&parent)\n        && let Ok(body) = parent.body()", "    if let Some(parent) = RForStatement::cast_ref(&parent)\n        && let Ok(body) = parent.sequence()")]),
    ("unary any operator", "bug", [(F, "        && operator.kind() == RSyntaxKind::WAT\n", "        && operator.kind() != RSyntaxKind::BANG\n")]),
    ("no recursion", "bug", [(F, "        return can_normalize_to_equal(&parent);", "        return parent.operator().is_ok();")]),
    ("recursion on this", "bug", [(F, "            RSyntaxKind::ASSIGN | RSyntaxKind::EQUAL | RSyntaxKind::WAT\n        )\n    {\n        return can", "            RSyntaxKind::ASSIGN | RSyntaxKind::EQUAL | RSyntaxKind::WAT | RSyntaxKind::TILDE\n        )\n    {\n        return can")]),
    ("below arguments", "bug", [(F, "    if RParenthesizedExpression::can_cast(parent_kind) {", "    if RParenthesizedExpression::can_cast(parent_kind) || parent_kind == RSyntaxKind::R_ARGUMENT {")]),
    ("subset rather than list", "bug", [(F, "    if RExpressionList::can_cast(parent_kind) {", "    if parent_kind.is_list() {".replace("parent_kind.is_list()", "matches!(parent_kind, RSyntaxKind::R_EXPRESSION_LIST | RSyntaxKind::R_ARGUMENT_LIST)"))]),
    ("default true", "bug", [(F, "        // RExpressionList. We return the conservative `false` if we somehow get here.\n        return false;", "        return true;")]),
    ("else missing", "bug", [(F, "    if let Some(parent) = RElseClause::cast_ref(&parent)\n        && let Ok(alternative) = parent.alternative()\n        && alternative.syntax() == node\n    {\n        return true;\n    }\n", "")]),
    ("as a match", "same", [(F, "    if RExpressionList::can_cast(parent_kind) {\n        return true;\n    }\n\n    // i.e. `(x <- 1)` to `(x = 1)`\n    if RParenthesizedExpression::can_cast(parent_kind) {",
                            "    if matches!(parent_kind, RSyntaxKind::R_PARENTHESIZED_EXPRESSION | RSyntaxKind::R_EXPRESSION_LIST) {")]),
    ("comparison the other way", "same", [(F, "        && consequence.syntax() == node", "        && node == consequence.syntax()")]),
    ("condition first", "same", [(F, SAFE, '''                if !can_normalize_to_equal(node) {
                    return operator.format().fmt(f);
                }
                let text = dynamic_text("=", operator.text_trimmed_range().start());
                write!(f, [format_replaced(operator, &text)])''')]),
    ("pairs", "same", [(F, '''    match f.options().assignment_style() {
        AssignmentStyle::Arrow => match left_assignment_kind {
''' + ARROW_EQ + '''
        },''', '''    match f.options().assignment_style() {
        AssignmentStyle::Arrow if left_assignment_kind_is_arrow(&left_assignment_kind) => operator.format().fmt(f),
        AssignmentStyle::Arrow => format_replaced(operator, &dynamic_text("<-", operator.text_trimmed_range().start())).fmt(f),'''),
                        (F, "fn fmt_left_assignment_operator(", "fn left_assignment_kind_is_arrow(k: &LeftAssignmentKind) -> bool {\n    matches!(k, LeftAssignmentKind::Arrow)\n}\n\nfn fmt_left_assignment_operator(")]),
    ("helper for bodies", "same", [(F, "    if let Some(parent) = RRepeatStatement::cast_ref(&parent)\n        && let Ok(body) = parent.body()\n        && body.syntax() == node\n    {\n        return true;\n    }\n",
                                   "    if let Some(parent) = RRepeatStatement::cast_ref(&parent) {\n        let body = match parent.body() {\n            Ok(body) => body,\n            Err(_) => return false,\n        };\n        return body.syntax() == node;\n    }\n")]),
]
