M=[
('images-take','P14',[('src/nodes/images.rs','                .iter()\n','                .iter()\n                .take(64)\n')]),
('bold-take','P14',[('src/nodes/bold.rs','        for node in &self.body {','        for node in self.body.iter().take(100) {')]),
('bold-skip','P14',[('src/nodes/bold.rs','        for node in &self.body {','        for node in self.body.iter().skip(self.body.len().saturating_sub(50)) {')]),
('head-limit','P14',[('src/nodes/heading.rs','"#".repeat(self.level as usize)','"#".repeat((self.level as usize).min(12))')]),
('list-limit','P14',[('src/nodes/list.rs','        for ','        if self.body.len() > 99 {\n            return Ok(());\n        }\n        for (')]),
('list-level','P14',[('src/nodes/list.rs','" ".repeat(self.level)','" ".repeat(self.level % 32)')]),
]
