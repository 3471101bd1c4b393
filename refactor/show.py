R = {}
N = "src/nodes/"
R["emphasis-let"] = [(N + "emphasis.rs", '''        write!(
            f,
            "*{}*",
            self.0
                .replace("\\\\", "\\\\\\\\")
                .replace("*", "\\\\*")
                .replace("\\n\\n", "\\\\\\n\\n")
                .replace("\\n\\n\\n", "\\n\\n\\\\\\n")
        )''', '''        let text = self.0.replace('\\\\', "\\\\\\\\");
        let text = text.replace('*', "\\\\*");
        let text = text.replace("\\n\\n", "\\\\\\n\\n");
        let text = text.replace("\\n\\n\\n", "\\n\\n\\\\\\n");
        f.write_str("*")?;
        f.write_str(&text)?;
        f.write_str("*")''')]
R["emphasis-helper"] = [(N + "emphasis.rs", '''            self.0
                .replace("\\\\", "\\\\\\\\")
                .replace("*", "\\\\*")
                .replace("\\n\\n", "\\\\\\n\\n")
                .replace("\\n\\n\\n", "\\n\\n\\\\\\n")
''', '''            escape(&self.0, &["\\\\", "*"])
'''), (N + "emphasis.rs", "impl Display for Emphasis", '''fn escape(text: &str, specials: &[&str]) -> String {
    let mut out = text.to_string();
    for s in specials {
        out = out.replace(s, &format!("\\\\{s}"));
    }
    out.replace("\\n\\n", "\\\\\\n\\n").replace("\\n\\n\\n", "\\n\\n\\\\\\n")
}

impl Display for Emphasis''')]
R["emphasis-fold"] = [(N + "emphasis.rs", '''            self.0
                .replace("\\\\", "\\\\\\\\")
                .replace("*", "\\\\*")
                .replace("\\n\\n", "\\\\\\n\\n")
                .replace("\\n\\n\\n", "\\n\\n\\\\\\n")
''', '''            [("\\\\", "\\\\\\\\"), ("*", "\\\\*"), ("\\n\\n", "\\\\\\n\\n"), ("\\n\\n\\n", "\\n\\n\\\\\\n")]
                .iter()
                .fold(self.0.clone(), |t, (a, b)| t.replace(a, b))
''')]
R["italic-charloop"] = [(N + "italic.rs", '''            self.0
                .replace("\\\\", "\\\\\\\\")
                .replace("_", "\\\\_")
''', '''            escape_chars(&self.0)
'''), (N + "italic.rs", "impl Display for Italic", '''fn escape_chars(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    for c in s.chars() {
        if c == '\\\\' || c == '_' {
            out.push('\\\\');
        }
        out.push(c);
    }
    out
}

impl Display for Italic''')]
R["italic-charmatch"] = [(N + "italic.rs", '''            self.0
                .replace("\\\\", "\\\\\\\\")
                .replace("_", "\\\\_")
''', '''            self.0
                .chars()
                .map(|c| match c {
                    '\\\\' => "\\\\\\\\".to_string(),
                    '_' => "\\\\_".to_string(),
                    c => c.to_string(),
                })
                .collect::<String>()
''')]
R["italic-flatmap"] = [(N + "italic.rs", '''            self.0
                .replace("\\\\", "\\\\\\\\")
                .replace("_", "\\\\_")
''', '''            self.0
                .chars()
                .fold(String::new(), |mut acc, c| {
                    if matches!(c, '\\\\' | '_') {
                        acc.push('\\\\');
                    }
                    acc.push(c);
                    acc
                })
''')]
R["italic-prefix-helper"] = [(N + "italic.rs", '''            self.0
                .replace("\\\\", "\\\\\\\\")
                .replace("_", "\\\\_")
                .replace("\\n\\n", "\\\\\\n\\n")
                .replace("\\n\\n\\n", "\\n\\n\\\\\\n")
''', '''            super::escape_inline(&self.0, "_")
'''), (N + "mod.rs", "mod anchor;", '''pub(crate) fn escape_inline(text: &str, marker: &str) -> String {
    let escaped = ["\\\\", marker]
        .into_iter()
        .fold(text.to_owned(), |acc, m| acc.replace(m, &["\\\\", m].concat()));
    escaped
        .replace("\\n\\n", "\\\\\\n\\n")
        .replace("\\n\\n\\n", "\\n\\n\\\\\\n")
}

mod anchor;''')]
R["anchor-split-write"] = [(N + "anchor.rs", '''        write!(
            f,
            "[{}]({})",
            self.text''', '''        let text = self.text'''), (N + "anchor.rs", '''                .replace("\\n\\n\\n", "\\n\\n\\\\\\n"),
            self.url''', '''                .replace("\\n\\n\\n", "\\n\\n\\\\\\n");
        write!(f, "[{text}]")?;
        write!(
            f,
            "({})",
            self.url''')]
R["bold-iter"] = [(N + "bold.rs", '''        write!(f, "**")?;
        for node in &self.body {
            write!(f, "{}", node.to_string().replace("**", "\\\\**"))?;
        }
        write!(f, "**")''', '''        let inner: String = self
            .body
            .iter()
            .map(|node| node.to_string().replace("**", "\\\\**"))
            .collect();
        write!(f, "**{inner}**")''')]
R["bold-try"] = [(N + "bold.rs", '''        for node in &self.body {
            write!(f, "{}", node.to_string().replace("**", "\\\\**"))?;
        }
''', '''        self.body
            .iter()
            .try_for_each(|node| f.write_str(&node.to_string().replace("**", "\\\\**")))?;
''')]
R["bold-all"] = [(N + "bold.rs", '''        let has_content = self.body.iter().any(|node| match node {
            BoldNodes::Text(t) => !t.is_empty(),
            _ => true,
        });
        if !has_content {
            return Ok(());
        }''', '''        let blank = self
            .body
            .iter()
            .all(|node| matches!(node, BoldNodes::Text(t) if t.is_empty()));
        if blank {
            return Ok(());
        }''')]
R["bold-loop-flag"] = [(N + "bold.rs", '''        let has_content = self.body.iter().any(|node| match node {
            BoldNodes::Text(t) => !t.is_empty(),
            _ => true,
        });
''', '''        let mut has_content = false;
        for node in &self.body {
            match node {
                BoldNodes::Text(t) if t.is_empty() => {}
                _ => {
                    has_content = true;
                    break;
                }
            }
        }
''')]
R["codespan-nest"] = [(N + "code_span.rs", '''        if self.0.is_empty() {
            return Ok(());
        }
        write!(''', '''        let body = &self.0;
        if body == "" {
            return Ok(());
        }
        write!(''')]
R["collapsible-loop"] = [(N + "collapsible.rs", '''            self.body
                .iter()
                .map(|node| match node {
                    YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
                    other => other.to_string(),
                })
                .collect::<Vec<_>>()
                .join("\\n\\n")
''', '''            body
'''), (N + "collapsible.rs", '''        write!(
            f,
            "{{% {}''', '''        let mut parts = Vec::new();
        for node in &self.body {
            parts.push(match node {
                YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
                other => other.to_string(),
            });
        }
        let body = parts.join("\\n\\n");
        write!(
            f,
            "{{% {}''')]
R["collapsible-first-flag"] = [(N + "collapsible.rs", '''            self.body
                .iter()
                .map(|node| match node {
                    YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
                    other => other.to_string(),
                })
                .collect::<Vec<_>>()
                .join("\\n\\n")
''', '''            body
'''), (N + "collapsible.rs", '''        write!(
            f,
            "{{% {}''', '''        let mut body = String::new();
        for (i, node) in self.body.iter().enumerate() {
            if i > 0 {
                body.push_str("\\n\\n");
            }
            match node {
                YamdNodes::Paragraph(p) => {
                    body.push_str(&escape_leading_block_marker(p.to_string()))
                }
                other => body.push_str(&other.to_string()),
            }
        }
        write!(
            f,
            "{{% {}''')]
R["shared-block-join"] = [(N + "collapsible.rs", '''            self.body
                .iter()
                .map(|node| match node {
                    YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
                    other => other.to_string(),
                })
                .collect::<Vec<_>>()
                .join("\\n\\n")
''', '''            super::yamd::join_blocks(&self.body)
'''), (N + "collapsible.rs", "use super::{YamdNodes, paragraph::escape_leading_block_marker};", "use super::YamdNodes;"),
 (N + "yamd.rs", '''        let body = self
            .body
            .iter()
            .map(|node| match node {
                YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
                other => other.to_string(),
            })
            .collect::<Vec<_>>()
            .join("\\n\\n");
''', '''        let body = join_blocks(&self.body);
'''), (N + "yamd.rs", "impl Display for Yamd {", '''pub(crate) fn join_blocks(nodes: &[YamdNodes]) -> String {
    nodes
        .iter()
        .map(|node| match node {
            YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
            other => other.to_string(),
        })
        .collect::<Vec<_>>()
        .join("\\n\\n")
}

impl Display for Yamd {''')]
R["yamd-ifpara"] = [(N + "yamd.rs", '''            .map(|node| match node {
                YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
                other => other.to_string(),
            })''', '''            .map(|node| {
                let text = node.to_string();
                if matches!(node, YamdNodes::Paragraph(_)) {
                    escape_leading_block_marker(text)
                } else {
                    text
                }
            })''')]
R["yamd-meta-writes"] = [(N + "yamd.rs", '''                let sep = if metadata.ends_with('\\n') { "" } else { "\\n" };
                write!(f, "---\\n{}{}---\\n\\n{}", metadata, sep, body)
''', '''                f.write_str("---\\n")?;
                f.write_str(&metadata)?;
                if !metadata.ends_with('\\n') {
                    f.write_str("\\n")?;
                }
                write!(f, "---\\n\\n{body}")
''')]
R["yamd-iflet"] = [(N + "yamd.rs", '''            None => write!(f, "{}", body),''', '''            None => body.fmt(f),''')]
R["marker-any"] = [(N + "paragraph.rs", '''    if s.starts_with("- ")
        || s.starts_with("+ ")
        || (s.starts_with('#') && s.trim_start_matches('#').starts_with(' '))
        || s.starts_with("!!")
        || s.starts_with("![")
        || s.starts_with("---")
    {
        format!("\\\\{}", s)
    } else {
        s
    }''', '''    const MARKERS: [&str; 5] = ["- ", "+ ", "!!", "![", "---"];
    let heading = s.starts_with('#') && s.trim_start_matches('#').starts_with(' ');
    if heading || MARKERS.iter().any(|m| s.starts_with(m)) {
        return format!("\\\\{s}");
    }
    s''')]
R["marker-fn"] = [(N + "paragraph.rs", '''    if s.starts_with("- ")
        || s.starts_with("+ ")
        || (s.starts_with('#') && s.trim_start_matches('#').starts_with(' '))
        || s.starts_with("!!")
        || s.starts_with("![")
        || s.starts_with("---")
    {
        format!("\\\\{}", s)
    } else {
        s
    }
}''', '''    let mut s = s;
    if starts_block(&s) {
        s.insert(0, '\\\\');
    }
    s
}

fn starts_block(s: &str) -> bool {
    let hashes = s.trim_start_matches('#');
    let is_heading = hashes.len() < s.len() && hashes.starts_with(' ');
    is_heading
        || s.starts_with("- ")
        || s.starts_with("+ ")
        || s.starts_with("!!")
        || s.starts_with("![")
        || s.starts_with("---")
}''')]
R["paragraph-order"] = [(N + "paragraph.rs", '''                    .replace("*", "\\\\*")
                    .replace("_", "\\\\_")
                    .replace("~", "\\\\~")
                    .replace("`", "\\\\`")''', '''                    .replace("`", "\\\\`")
                    .replace("~", "\\\\~")
                    .replace("_", "\\\\_")
                    .replace("*", "\\\\*")''')]
R["paragraph-display"] = [(N + "paragraph.rs", '''            ParagraphNodes::Anchor(a) => write!(f, "{}", a),
            ParagraphNodes::Bold(b) => write!(f, "{}", b),''', '''            ParagraphNodes::Anchor(a) => a.fmt(f),
            ParagraphNodes::Bold(b) => Display::fmt(b, f),''')]
R["paragraph-iter"] = [(N + "paragraph.rs", '''        for node in &self.body {
            write!(f, "{}", node)?;
        }
        Ok(())''', '''        self.body.iter().try_for_each(|node| node.fmt(f))''')]
R["paragraph-array"] = [(N + "paragraph.rs", '''                t.replace("\\\\", "\\\\\\\\")
                    .replace("*", "\\\\*")
                    .replace("_", "\\\\_")
                    .replace("~", "\\\\~")
                    .replace("`", "\\\\`")
                    .replace("[", "\\\\[")
                    .replace("{", "\\\\{")
''', '''                t.chars()
                    .flat_map(|c| {
                        "\\\\*_~`[{"
                            .contains(c)
                            .then_some('\\\\')
                            .into_iter()
                            .chain(std::iter::once(c))
                    })
                    .collect::<String>()
''')]
R["list-loop"] = [(N + "list.rs", '''        write!(
            f,
            "{}",
            self.body
                .iter()
                .map(|list_item| format!(
                    "{}{} {}",
                    " ".repeat(self.level),
                    self.list_type,
                    list_item.to_string().replace(pat, rep)
                ))
                .collect::<Vec<_>>()
                .join("\\n")
        )''', '''        let indent = " ".repeat(self.level);
        let mut first = true;
        for list_item in &self.body {
            if !first {
                writeln!(f)?;
            }
            first = false;
            write!(f, "{}{} ", indent, self.list_type)?;
            write!(f, "{}", list_item.to_string().replace(pat, rep))?;
        }
        Ok(())''')]
R["list-marker-fn"] = [(N + "list.rs", '''        let (pat, rep) = match self.list_type {
            ListTypes::Unordered => ("\\n- ", "\\n\\\\- "),
            ListTypes::Ordered => ("\\n+ ", "\\n\\\\+ "),
        };''', '''        let marker = match self.list_type {
            ListTypes::Unordered => '-',
            ListTypes::Ordered => '+',
        };
        let pat = format!("\\n{marker} ");
        let rep = format!("\\n\\\\{marker} ");'''), (N + "list.rs", "replace(pat, rep)", "replace(&pat, &rep)")]
R["listitem-iflet"] = [(N + "list_item.rs", '''        let text: String = self.text.iter().map(|t| t.to_string()).collect();
        match &self.nested_list {
            Some(nested) => write!(f, "{}\\n{}", text, nested),
            None => write!(f, "{}", text),
        }''', '''        for t in &self.text {
            write!(f, "{t}")?;
        }
        if let Some(nested) = &self.nested_list {
            write!(f, "\\n{nested}")?;
        }
        Ok(())''')]
R["highlight-match"] = [(N + "highlight.rs", '''        write!(
            f,
            "!!{}\\n{}{}\\n!!",
            title,
            icon,
''', '''        f.write_str("!!")?;
        f.write_str(&title)?;
        f.write_str("\\n")?;
        f.write_str(&icon)?;
        write!(
            f,
            "{}\\n!!",
''')]
R["highlight-iflet"] = [(N + "highlight.rs", '''        let icon = self.icon.as_ref().map_or("".to_string(), |i| {
''', '''        let icon = self.icon.as_deref().map(|i| {
'''), (N + "highlight.rs", '''.replace("\\n", "\\\\\\n"))
        });
        write!(''', '''.replace("\\n", "\\\\\\n"))
        }).unwrap_or_default();
        write!(''')]
R["highlight-matchtitle"] = [(N + "highlight.rs", '''        let icon = self.icon.as_ref().map_or("".to_string(), |i| {
            format!("! {}\\n", i.replace("\\\\", "\\\\\\\\").replace("\\n", "\\\\\\n"))
        });''', '''        let icon = match &self.icon {
            Some(i) => {
                let escaped = i.replace("\\\\", "\\\\\\\\").replace("\\n", "\\\\\\n");
                String::from("! ") + &escaped + "\\n"
            }
            None => String::new(),
        };''')]
R["heading-loop"] = [(N + "heading.rs", '''        let body: String = self.body.iter().map(|n| n.to_string()).collect();
        write!(f, "{} {}", "#".repeat(self.level as usize), body)''', '''        for _ in 0..self.level {
            f.write_str("#")?;
        }
        f.write_str(" ")?;
        for node in &self.body {
            node.fmt(f)?;
        }
        Ok(())''')]
R["heading-iter-repeat"] = [(N + "heading.rs", '''        write!(f, "{} {}", "#".repeat(self.level as usize), body)''', '''        let marker = "#".repeat(usize::from(self.level));
        write!(f, "{marker} {body}")''')]
R["images-loop"] = [(N + "images.rs", '''        write!(
            f,
            "{}",
            self.body
                .iter()
                .map(|image| image.to_string())
                .collect::<Vec<_>>()
                .join("\\n")
        )''', '''        let mut images = self.body.iter();
        if let Some(first) = images.next() {
            write!(f, "{first}")?;
        }
        for image in images {
            write!(f, "\\n{image}")?;
        }
        Ok(())''')]
R["images-tostring"] = [(N + "images.rs", ".map(|image| image.to_string())", ".map(ToString::to_string)")]
R["embed-concat"] = [(N + "embed.rs", '''        write!(
            f,
            "{{{{{}|{}}}}}",
            self.kind''', '''        let kind = self.kind'''), (N + "embed.rs", '''                .replace("|", "\\\\|"),
            self.args''', '''                .replace("|", "\\\\|");
        let args = self.args'''), (N + "embed.rs", '''                .replace("}", "\\\\}")
        )''', '''                .replace("}", "\\\\}");
        f.write_str(&format!("{}{}|{}{}", "{{", kind, args, "}}"))''')]
R["code-format"] = [(N + "code.rs", '''        write!(
            f,
            "```{}\\n{}\\n```",
            self.lang''', '''        const FENCE: &str = "```";
        write!(
            f,
            "{FENCE}{}\\n{}\\n{FENCE}",
            self.lang''')]
R["code-charset"] = [(N + "code.rs", '''                .replace("\\\\", "\\\\\\\\")
                .replace("`", "\\\\`")
                .replace("\\n", "\\\\\\n"),''', '''                .split('\\\\')
                .collect::<Vec<_>>()
                .join("\\\\\\\\")
                .replace("`", "\\\\`")
                .replace("\\n", "\\\\\\n"),''')]
