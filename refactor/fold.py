R = {}
F = "src/op/to_yamd.rs"
R["get0"] = [(F, "values.first().cloned().unwrap_or_default()", "values.get(0).map(|v| v.to_owned()).unwrap_or_else(String::new)")]
R["embed-iter"] = [(F, '''                        let kind = values.first().cloned().unwrap_or_default();
                        let args = values.get(2).cloned().unwrap_or_default();
''', '''                        let mut it = values.into_iter();
                        let kind = it.next().unwrap_or_default();
                        let args = it.nth(1).unwrap_or_default();
''')]
R["helper-top"] = [(F, '''fn extract_heading_level''', '''fn top(stack: &mut [Frame]) -> Result<&mut Frame, UnbalancedOpStream> {
    stack.last_mut().ok_or(UnbalancedOpStream)
}

fn extract_heading_level'''), (F, "ALL_", "ALL_")] if 0 else [(F, '''fn extract_heading_level''', '''fn top_of(stack: &mut [Frame]) -> Result<&mut Frame, UnbalancedOpStream> {
    match stack.last_mut() {
        Some(f) => Ok(f),
        None => Err(UnbalancedOpStream),
    }
}

fn extract_heading_level'''), (F, '''                        let italic = Italic::new(text);
                        match stack.last_mut().ok_or(UnbalancedOpStream)? {''', '''                        let italic = Italic::new(text);
                        match top_of(&mut stack)? {'''), (F, '''                let top = stack.last_mut().ok_or(UnbalancedOpStream)?;
                match top {
                    Frame::Heading { body, .. } => {
                        body.push(HeadingNodes::Text(text));''', '''                let top = top_of(&mut stack)?;
                match top {
                    Frame::Heading { body, .. } => {
                        body.push(HeadingNodes::Text(text));''')]
R["filter-loop"] = [(F, '''    stack
        .iter()
        .filter(|f| matches!(f, Frame::UnorderedList { .. } | Frame::OrderedList { .. }))
        .count()''', '''    let mut n = 0;
    for f in stack {
        if let Frame::UnorderedList { .. } | Frame::OrderedList { .. } = f {
            n += 1;
        }
    }
    n''')]
R["filter-fold"] = [(F, '''        .filter(|f| matches!(f, Frame::UnorderedList { .. } | Frame::OrderedList { .. }))
        .count()''', '''        .map(|f| usize::from(matches!(f, Frame::UnorderedList { .. } | Frame::OrderedList { .. })))
        .sum()''')]
R["merge-text-arms"] = [(F, '''                    Frame::Italic { text: t } => t.push_str(&text),
                    Frame::Strikethrough { text: t } => t.push_str(&text),
                    Frame::CodeSpan { text: t } => t.push_str(&text),
''', '''                    Frame::Italic { text: t }
                    | Frame::Strikethrough { text: t }
                    | Frame::CodeSpan { text: t } => *t += &text,
''')]
R["level-bytes"] = [(F, '''    s.chars().take_while(|&c| c == '#').count() as u8''', '''    s.bytes().take_while(|b| *b == b'#').count() as u8''')]
R["level-trim"] = [(F, '''    s.chars().take_while(|&c| c == '#').count() as u8''', '''    let rest = s.trim_start_matches('#');
    (s.len() - rest.len()) as u8''')]
R["level-find"] = [(F, '''    s.chars().take_while(|&c| c == '#').count() as u8''', '''    s.find(|c| c != '#').unwrap_or(s.len()) as u8''')]
R["level-filter"] = [(F, '''    s.chars().take_while(|&c| c == '#').count() as u8''', '''    s.trim_end().len() as u8''')]
R["trim-helper-take"] = [(F, '''    if let Some(ParagraphNodes::Text(t)) = body.last_mut() {
        let trimmed = t.trim_end_matches('\\n');
        if trimmed.is_empty() {
            body.pop();
        } else {
            *t = trimmed.to_owned();
        }
    }''', '''    let Some(ParagraphNodes::Text(t)) = body.last_mut() else {
        return;
    };
    let kept = t.trim_end_matches('\\n').len();
    if kept == 0 {
        body.pop();
    } else {
        t.truncate(kept);
    }''')]
R["trim-loop"] = [(F, '''        let trimmed = t.trim_end_matches('\\n');
        if trimmed.is_empty() {
            body.pop();
        } else {
            *t = trimmed.to_owned();
        }''', '''        while t.ends_with('\\n') {
            t.pop();
        }
        if t.is_empty() {
            body.pop();
        }''')]
R["trim-str-pat"] = [(F, '''        let trimmed = t.trim_end_matches('\\n');''', '''        let trimmed = t.trim_end_matches("\\n");''')]
R["trim-once"] = [(F, '''                        let code = code.trim_end_matches('\\n').to_owned();
                        push_yamd_node''', '''                        push_yamd_node''')]
R["meta-trim-once"] = [(F, '''let metadata = text.trim_matches('\\n').to_owned();''', '''let metadata = text;''')]
R["meta-trim-split"] = [(F, '''let metadata = text.trim_matches('\\n').to_owned();''', '''let metadata = text.trim_start_matches('\\n').trim_end_matches('\\n').to_string();''')]
R["finish-list-if-let"] = [(F, '''    match stack.last_mut().ok_or(UnbalancedOpStream)? {
        Frame::ListItem { nested_list, .. } => *nested_list = Some(list),
        _ => push_yamd_node(stack, list.into()),
    }
    Ok(())''', '''    let top = stack.last_mut().ok_or(UnbalancedOpStream)?;
    if let Frame::ListItem { nested_list, .. } = top {
        nested_list.replace(list);
        return Ok(());
    }
    if let Frame::Document { children } = top {
        children.push(YamdNodes::List(list));
    }
    Ok(())''')]
R["split-end"] = [(F, '''                    (Node::Bold, Frame::Bold { body }) => {
                        push_into_paragraph(&mut stack, Bold::new(body).into());
                    }''', '''                    (Node::Bold, Frame::Bold { body }) => {
                        let bold = Bold { body };
                        if let Some(Frame::Paragraph { body: parent }) = stack.last_mut() {
                            parent.push(ParagraphNodes::Bold(bold));
                        }
                    }''')]
R["reorder-end-arms"] = [(F, '''                    (Node::Bold, Frame::Bold { body }) => {
                        push_into_paragraph(&mut stack, Bold::new(body).into());
                    }
''', ''), (F, '''                    (Node::CodeSpan, Frame::CodeSpan { text }) => {''', '''                    (Node::Bold, Frame::Bold { body }) => {
                        push_into_paragraph(&mut stack, Bold::new(body).into());
                    }
                    (Node::CodeSpan, Frame::CodeSpan { text }) => {''')]
R["while-let"] = [(F, '''    for op in ops {
        match &op.kind {''', '''    let mut rest = ops.iter();
    while let Some(op) = rest.next() {
        match &op.kind {''')]
R["index-loop"] = [(F, '''    for op in ops {
        match &op.kind {''', '''    for i in 0..ops.len() {
        let op = &ops[i];
        match &op.kind {''')]
R["list-type-param"] = [(F, '''                    (Node::UnorderedList, Frame::UnorderedList { level, items }) => {
                        finish_list(&mut stack, List::new(ListTypes::Unordered, level, items))?;
                    }
                    (Node::OrderedList, Frame::OrderedList { level, items }) => {
                        finish_list(&mut stack, List::new(ListTypes::Ordered, level, items))?;
                    }
''', '''                    (Node::UnorderedList, Frame::UnorderedList { level, items })
                    | (Node::OrderedList, Frame::OrderedList { level, items }) => {
                        let kind = if *node == Node::OrderedList {
                            ListTypes::Ordered
                        } else {
                            ListTypes::Unordered
                        };
                        finish_list(&mut stack, List::new(kind, level, items))?;
                    }
''')]
R["asstr-slice"] = [("src/op/mod.rs", '''                if range.is_empty() {
                    ""
                } else {
                    &source[range.clone()]
                }''', '''                if range.start >= range.end {
                    return "";
                }
                &source[range.start..range.end]''')]
R["start-inline"] = [(F, '''                Node::UnorderedList => {
                    let level = count_list_depth(&stack);
                    stack.push(Frame::UnorderedList {
                        level,
                        items: Vec::new(),
                    });
                }
                Node::OrderedList => {
                    let level = count_list_depth(&stack);
                    stack.push(Frame::OrderedList {
                        level,
                        items: Vec::new(),
                    });
                }''', '''                Node::UnorderedList | Node::OrderedList => {
                    let level = count_list_depth(&stack);
                    let items = vec![];
                    let frame = match node {
                        Node::OrderedList => Frame::OrderedList { level, items },
                        _ => Frame::UnorderedList { level, items },
                    };
                    stack.push(frame);
                }''')]
R["body-extend-append"] = [(F, '''                            Frame::Yamd { body, .. } => {
                                body.extend(children);
                            }''', '''                            Frame::Yamd { body, .. } => {
                                let mut children = children;
                                body.append(&mut children);
                            }''')]
R["extract-fold-fns"] = [(F, '''            OpKind::Value => {
                let text = op.content.to_string(source);
                let top = stack.last_mut().ok_or(UnbalancedOpStream)?;
                match top {
                    Frame::Heading { body, .. } => {
                        body.push(HeadingNodes::Text(text));
                    }
                    Frame::Paragraph { body } => {
                        body.push(ParagraphNodes::Text(text));
                    }
                    Frame::Bold { body } => {
                        body.push(BoldNodes::Text(text));
                    }
                    Frame::Italic { text: t } => t.push_str(&text),
                    Frame::Strikethrough { text: t } => t.push_str(&text),
                    Frame::CodeSpan { text: t } => t.push_str(&text),
                    Frame::Emphasis { text: t } => t.push_str(&text),
                    Frame::Title { text: t } => t.push_str(&text),
                    Frame::Destination { text: t } => t.push_str(&text),
                    Frame::Modifier { text: t } => t.push_str(&text),
                    Frame::Icon { text: t } => t.push_str(&text),
                    Frame::Code { code, .. } => code.push_str(&text),
                    Frame::Embed { values } => values.push(text),
                    Frame::Metadata { text: t } => t.push_str(&text),
                    Frame::ThematicBreak => {}
                    Frame::Highlight { .. } | Frame::Document { .. } => {}
                    // coverage: defensive catchall; every frame that accepts Value is enumerated above
                    _ => {}
                }
            }''', '''            OpKind::Value => {
                let text = op.content.to_string(source);
                stack.last_mut().ok_or(UnbalancedOpStream)?.add_text(text);
            }'''), (F, '''fn count_list_depth''', '''impl Frame {
    fn add_text(&mut self, text: String) {
        let target = match self {
            Frame::Heading { body, .. } => {
                body.push(text.into());
                return;
            }
            Frame::Paragraph { body } => {
                body.push(text.into());
                return;
            }
            Frame::Bold { body } => {
                body.push(text.into());
                return;
            }
            Frame::Embed { values } => {
                values.push(text);
                return;
            }
            Frame::Italic { text }
            | Frame::Strikethrough { text }
            | Frame::CodeSpan { text }
            | Frame::Emphasis { text }
            | Frame::Title { text }
            | Frame::Destination { text }
            | Frame::Modifier { text }
            | Frame::Icon { text }
            | Frame::Metadata { text } => text,
            Frame::Code { code, .. } => code,
            _ => return,
        };
        target.push_str(&text);
    }
}

fn count_list_depth''')]
R["rev-scan-level"] = [(F, '''    stack
        .iter()
        .filter(''', '''    stack
        .iter()
        .rev()
        .filter(''')]
R["trackdepth"] = [(F, '''    for op in ops {
        match &op.kind {''', '''    let mut depth = 0usize;
    for op in ops {
        match &op.kind {'''), (F, '''                    let level = count_list_depth(&stack);
                    stack.push(Frame::UnorderedList {''', '''                    let level = depth;
                    depth += 1;
                    stack.push(Frame::UnorderedList {'''), (F, '''                    let level = count_list_depth(&stack);
                    stack.push(Frame::OrderedList {''', '''                    let level = depth;
                    depth += 1;
                    stack.push(Frame::OrderedList {'''), (F, '''                        finish_list(&mut stack, List::new(ListTypes::Unordered, level, items))?;''', '''                        depth -= 1;
                        finish_list(&mut stack, List::new(ListTypes::Unordered, level, items))?;'''), (F, '''                        finish_list(&mut stack, List::new(ListTypes::Ordered, level, items))?;''', '''                        depth -= 1;
                        finish_list(&mut stack, List::new(ListTypes::Ordered, level, items))?;'''), (F, '''fn count_list_depth(stack: &[Frame]) -> usize {
    stack
        .iter()
        .filter(|f| matches!(f, Frame::UnorderedList { .. } | Frame::OrderedList { .. }))
        .count()
}
''', '')]
