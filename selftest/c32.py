D = "crates/air_r_formatter/src/r/"
W = D + "auxiliary/while_statement.rs"
PA = D + "auxiliary/parameter.rs"
BI = D + "auxiliary/binary_expression.rs"
SV = D + "auxiliary/string_value.rs"
IF = D + "auxiliary/if_statement.rs"
AR = D + "auxiliary/argument.rs"
BR = D + "auxiliary/braced_expressions.rs"
CA = D + "auxiliary/call_arguments.rs"
EL = D + "lists/expression_list.rs"
PL = D + "lists/parameter_list.rs"
J = "crates/air_r_formatter/src/joiner_ext.rs"
G = "crates/air_r_formatter/src/generated.rs"
SC = "crates/air_r_formatter/src/string_content.rs"
CASES = [
    ("while condition twice", "bug", [(W, "l_paren_token.format(),\n", "l_paren_token.format(),\n                condition.format(),\n")]),
    ("while parens swapped", "bug", [(W, "                l_paren_token.format(),\n                group(&soft_block_indent(&condition.format())),\n                r_paren_token.format(),", "                r_paren_token.format(),\n                group(&soft_block_indent(&condition.format())),\n                l_paren_token.format(),")]),
    ("paren only if breaks", "bug", [(W, "                r_paren_token.format(),", "                if_group_breaks(&r_paren_token.format()),")]),
    ("default dropped", "bug", [(PA, "            write!(f, [space(), default.format()])?;", "            if default.syntax().first_token().is_some_and(|x| x.has_leading_comments()) {\n                write!(f, [space(), default.format()])?;\n            }")]),
    ("name after default", "bug", [(PA, "        write!(f, [name.format()])?;\n\n", ""), (PA, "        Ok(())", "        write!(f, [name.format()])?;\n\n        Ok(())")]),
    ("hole with value", "bug", [(AR, "(Some(name_clause), None) => write!(f, [name_clause.format(), space()]),", "(Some(_), None) => Ok(()),")]),
    ("name dropped", "bug", [(AR, "            write!(f, [name_clause.format(), space(), value.format()])", "            let _ = name_clause;\n            write!(f, [value.format()])")]),
    ("content lost", "bug", [(SV, "        if let Some(content_token) = content_token {\n", "        if let Some(content_token) = content_token.filter(|x| !x.text_trimmed().contains('\\r')) {\n")]),
    ("open twice", "bug", [(SV, "write!(f, [close_token.format()])?;", "write!(f, [open_token.format()])?;\n        let _ = close_token;")]),
    ("brace unbalanced", "bug", [(IF, '                        if_group_breaks(&text("}"))', '                        text("}")')]),
    ("brace missing", "bug", [(IF, '                        block_indent(&format_args![&node.format()]),\n                        text("}")\n', '                        block_indent(&format_args![&node.format()])\n')]),
    ("else lost", "bug", [(IF, "                else_clause\n            ])]", "                if_group_breaks(&else_clause)\n            ])]")]),
    ("empty when comments", "bug", [(BR, "    if node.expressions().is_empty() {\n", "    if node.expressions().len() <= 1 && comments.has_dangling_comments(node.syntax()) {\n        return BracedExpressionsVariant::Empty;\n    }\n    if node.expressions().is_empty() {\n")]),
    ("curly-curly of several", "bug", [(BR, "    if outer_expressions.len() != 1 {\n", "    if outer_expressions.is_empty() {\n")]),
    ("curly-curly inner lost", "bug", [(BR, "    if expression.len() != 1 {\n", "    if expression.is_empty() {\n"), (BR, "    if !matches!(symbol, AnyRExpression::RIdentifier(_)) {\n        return None;\n    }\n", ""), (BR, "block_indent(&expression.format())", "block_indent(&expression.first().unwrap().format())")]),
    ("chain not reversed", "bug", [(BI, "    tail.reverse();\n", "")]),
    ("chain of the right", "bug", [(BI, "        left = node.left()?;\n", "        left = node.right()?;\n")]),
    ("chain piece of left", "bug", [(BI, "            right: node.right()?,\n            enclosing: Some(node.clone()),", "            right: node.left()?,\n            enclosing: Some(node.clone()),")]),
    ("chain piece lost", "bug", [(BI, "        tail.push(TailPiece {\n            operator: node.operator()?,\n            right: node.right()?,\n            enclosing: Some(node.clone()),\n        });\n", "        if !comments.has_skip_directive(node.syntax()) {\n            tail.push(TailPiece {\n                operator: node.operator()?,\n                right: node.right()?,\n                enclosing: Some(node.clone()),\n            });\n        }\n")]),
    ("separator lost", "bug", [(CA, "                    if let Some(separator) = element.trailing_separator()? {\n                        write!(f, [separator.format()])?;\n                    }\n\n                    Ok(())\n", "                    Ok(())\n")]),
    ("name of function lost", "bug", [(CA, "                    if let Some(name_clause) = argument.name_clause() {\n                        write!(f, [name_clause.format(), space()])?;\n                    }\n\n", "")]),
    ("holes lost when expanded", "bug", [(CA, "                format_with(|f| f.join().entries(self.leading_holes.iter()).finish()),\n                maybe_space(!self.leading_holes.is_empty() && !self.args.is_empty()),\n                &args,", "                maybe_space(!self.leading_holes.is_empty() && !self.args.is_empty()),\n                &args,")]),
    ("first skipped when expanded", "bug", [(CA, "            for (index, entry) in self.args.iter().enumerate() {", "            for (index, entry) in self.args.iter().enumerate().skip(1) {")]),
    ("separator consumed", "bug", [(CA, "                    // Are we correctly stripping trailing whitespace?\n                    write!(f, [separator.format()])", "                    let _ = separator;\n                    Ok(())")]),
    ("middle drops one", "bug", [(CA, "                                joiner.entries(&grouped[..last_index]);", "                                joiner.entries(&grouped[1..last_index]);")]),
    ("middle twice", "bug", [(CA, "joiner.entries(&grouped[1..]).finish()", "joiner.entries(&grouped[..]).finish()")]),
    ("most flat without holes", "bug", [(CA, "                    l_token,\n                    format_with(|f| { f.join().entries(leading_holes.iter()).finish() }),\n                    maybe_space(!leading_holes.is_empty() && !grouped.is_empty()),\n                    format_with(|f| {\n                        f.join_with(", "                    l_token,\n                    maybe_space(!leading_holes.is_empty() && !grouped.is_empty()),\n                    format_with(|f| {\n                        f.join_with(")]),
    ("grouped filtered", "bug", [(CA, "            .into_iter()\n            .enumerate()\n            .map(|(index, argument)| {\n                let layout", "            .into_iter()\n            .enumerate()\n            .filter(|(index, _)| *index <= last_index - 1)\n            .map(|(index, argument)| {\n                let layout")]),
    ("skip while", "bug", [(CA, "        let arguments: Vec<_> = iter_elements\n            .enumerate()", "        let arguments: Vec<_> = iter_elements\n            .skip(1)\n            .enumerate()")]),
    ("token of other side", "bug", [(CA, "                        r_token: &r_token.format(),\n                        expand: true,", "                        r_token: &l_token.format(),\n                        expand: true,")]),
    ("cached hole ignored", "bug", [(CA, "        if let Some(element) = content? {\n            f.write_element(element)?;\n        }\n\n        Ok(())", "        content?;\n\n        Ok(())")]),
    ("list element dropped", "bug", [(EL, "        for rule in node {\n", "        for rule in node.iter().skip(1) {\n")]),
    ("list result dropped", "bug", [(EL, "        join.finish()", "        let _ = join.finish();\n        Ok(())")]),
    ("trailing separators", "bug", [(PL, "        .zip(list.iter());", "        .zip(list.iter().skip(1));")]),
    ("join skips", "bug", [(J, "            self.has_elements = true;\n\n            write!(self.fmt, [content])\n        });\n    }\n\n", "            if self.has_elements && get_lines_before(node) > 9 {\n                return Ok(());\n            }\n            self.has_elements = true;\n\n            write!(self.fmt, [content])\n        });\n    }\n\n")]),
    ("join forgets failure", "bug", [(J, "        self.result = self.result.and_then(|_| {\n            if self.has_elements {", "        let _ = self.result.and_then(|_| {\n            if self.has_elements {")]),
    # ----------------------------------------------------------
    ("while in two writes", "same", [(W, "            [group(&format_args!(\n                while_token.format(),\n                space(),\n                l_paren_token.format(),", "            [group(&format_args!(\n                format_args!(while_token.format(), space(), l_paren_token.format()),")]),
    ("parameter matched", "same", [(PA, "        if let Some(default) = default {\n            write!(f, [space(), default.format()])?;\n        }\n\n        Ok(())", "        match default {\n            None => Ok(()),\n            Some(default) => write!(f, [space(), default.format()]),\n        }")]),
    ("parameter by accessor", "same", [(PA, "let RParameterFields { name, default } = node.as_fields();", "let name = node.name();\n        let default = node.default();")]),
    ("argument with ifs", "same", [(AR, "        (None, Some(value)) => write!(f, [value.format()]),", "        (None, Some(value)) => {\n            let formatted = value.format();\n            write!(f, [formatted])\n        }")]),
    ("string at once", "same", [(SV, "        write!(f, [open_token.format()])?;\n\n        if let Some(content_token) = content_token {\n            write!(f, [FormatStringContentToken::new(&content_token)])?;\n        }\n\n        write!(f, [close_token.format()])?;\n\n        Ok(())", "        let Some(content) = content_token else {\n            return write!(f, [open_token.format(), close_token.format()]);\n        };\n\n        write!(\n            f,\n            [\n                open_token.format(),\n                FormatStringContentToken::new(&content),\n                close_token.format()\n            ]\n        )")]),
    ("body helper", "same", [(IF, '                    [\n                        text("{"),\n                        block_indent(&format_args![&node.format()]),\n                        text("}")\n                    ]', '                    [\n                        text("{"),\n                        block_indent(&node.format()),\n                        text("}"),\n                    ]')]),
    ("curly length first", "same", [(BR, "    let node_inner = outer_expressions.first().unwrap();\n\n    // Check that the child of the outer `{` is another `{`\n    let node_inner = match node_inner {\n        AnyRExpression::RBracedExpressions(node_inner) => node_inner,\n        _ => return None,\n    };", "    let Some(AnyRExpression::RBracedExpressions(node_inner)) = outer_expressions.first() else {\n        return None;\n    };")]),
    ("list in closure", "same", [(EL, "        for rule in node {\n            join.entry(rule.syntax(), &format_or_verbatim(rule.format()));\n        }", "        node.iter().for_each(|rule| {\n            join.entry(rule.syntax(), &format_or_verbatim(rule.format()));\n        });")]),
    ("expanded args by reference", "same", [(CA, "            for (index, entry) in self.args.iter().enumerate() {\n                // Respect", "            let mut index = 0;\n            for entry in self.args {\n                let first = index == 0;\n                index += 1;\n                let index = usize::from(!first);\n                // Respect")]),
    ("holes in a loop", "same", [(CA, "                format_with(|f| f.join().entries(self.leading_holes.iter()).finish()),\n                maybe_space(!self.", "                format_with(|f| {\n                    for hole in self.leading_holes {\n                        write!(f, [hole])?;\n                    }\n                    Ok(())\n                }),\n                maybe_space(!self.")]),
    ("chain reversed when read", "same", [(BI, "    tail.reverse();\n", ""), (BI, "in tail.iter()\n", "in tail.iter().rev()\n")]),
    ("chain in a loop", "same", [(BI, "    while let Some(node) = as_chainable_binary_expression(&left)? {\n", "    loop {\n        let Some(node) = as_chainable_binary_expression(&left)? else {\n            break;\n        };\n")]),
    ("split first", "same", [(CA, "                                let last_index = grouped.len() - 1;\n                                joiner.entries(&grouped[..last_index]);\n                                joiner\n                                    .entry(&group(&grouped[last_index]).should_expand(true))\n                                    .finish()", "                                let count = grouped.len();\n                                joiner.entries(&grouped[..count - 1]);\n                                joiner.entry(&group(&grouped[count - 1]).should_expand(true));\n                                joiner.finish()")]),
    ("cache by reference", "same", [(CA, "            FormatCallArgument::Inspected { content, .. } => match content.clone()? {\n                Some(element) => {\n                    f.write_element(element)?;\n                    Ok(())\n                }\n                None => Ok(()),\n            },", "            FormatCallArgument::Inspected { content, .. } => {\n                if let Some(element) = content.clone()? {\n                    f.write_element(element)?;\n                }\n                Ok(())\n            }")]),
    ("join with if let", "same", [(J, "        self.result = self.result.and_then(|_| {\n            self.has_elements = true;", "        self.result = self.result.and_then(|()| {\n            self.has_elements = true;")]),
]
