T='src/op/to_yamd.rs'
M=[
('profile-ok2','P17',[('src/op/document.rs','''        debug_assert!(
            p.pos > before,''','''        debug_assert!(
            p.ops.iter().all(|_| true) && p.pos > before,''')]),
('atomic','P17',[('src/op/document.rs','    while !p.at_eof() {','    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 100000 { return; }\n    while !p.at_eof() {')]),
('atomic-stat','P17',[('src/op/document.rs','    while !p.at_eof() {','    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    while !p.at_eof() {')]),
('tls','P17',[('src/lib.rs','    let ops = op::parse(input);','    thread_local! { static LAST: std::cell::RefCell<Option<(usize, Yamd)>> = const { std::cell::RefCell::new(None) }; }\n    if let Some(y) = LAST.with(|l| l.borrow().as_ref().filter(|x| x.0 == input.len()).map(|x| x.1.clone())) { return y; }\n    let ops = op::parse(input);')]),
('once','P17',[('src/lib.rs','    let ops = op::parse(input);','    static L: std::sync::OnceLock<usize> = std::sync::OnceLock::new();\n    let k = *L.get_or_init(|| input.len());\n    if k > 3 && input.is_empty() { return deserialize("x"); }\n    let ops = op::parse(input);')]),
('once-ok','P17',[('src/lib.rs','    let ops = op::parse(input);','    static L: std::sync::OnceLock<usize> = std::sync::OnceLock::new();\n    let k = *L.get_or_init(|| 5);\n    if k > 7 { return deserialize("x"); }\n    let ops = op::parse(input);')]),
('lazy-ok','P17',[('src/lib.rs','    let ops = op::parse(input);','    static L: std::sync::LazyLock<std::collections::HashMap<u8, u8>> = std::sync::LazyLock::new(|| [(1u8, 2u8)].into_iter().collect());\n    if L.get(&1) == Some(&7) { return deserialize("x"); }\n    let ops = op::parse(input);')]),
('hash','P17',[('src/lib.rs','    let ops = op::parse(input);','    let m: std::collections::HashMap<char, usize> = input.char_indices().map(|(i, c)| (c, i)).collect();\n    let mut s = String::new();\n    for (c, _) in &m { s.push(*c); }\n    if s == "abc" { return deserialize("x"); }\n    let ops = op::parse(input);')]),
('hashset','P17',[('src/lib.rs','    let ops = op::parse(input);','    let m: std::collections::HashSet<char> = input.chars().collect();\n    let s: String = m.into_iter().collect();\n    if s == "abc" { return deserialize("x"); }\n    let ops = op::parse(input);')]),
('env','P17',[('src/lib.rs','    let ops = op::parse(input);','    if std::env::var("YAMD").is_ok() { return deserialize("x"); }\n    let ops = op::parse(input);')]),
('eprint','P17',[('src/lib.rs','    let ops = op::parse(input);','    if input.len() > 1000 { eprintln!("long"); }\n    let ops = op::parse(input);')]),
('profile','P17',[('src/op/document.rs','''        debug_assert!(
            p.pos > before,''','''        debug_assert!(
            { p.next(); true } || p.pos > before,''')]),
('profile2','P17',[('src/op/document.rs','    while !p.at_eof() {','    if !cfg!(debug_assertions) { p.next(); }\n    while !p.at_eof() {')]),
('profile-ok','P17',[('src/op/document.rs','''        debug_assert!(
            p.pos > before,''','''        debug_assert!(
            p.ops.len() > 1 && p.pos > before,''')]),
('addr','P17',[('src/lib.rs','    let ops = op::parse(input);','    if (input.as_ptr() as usize) % 16 == 3 { return deserialize("x"); }\n    let ops = op::parse(input);')]),
('cell','P17',[('src/nodes/thematic_break.rs',None,'#[derive(Debug,Clone,PartialEq)]\npub struct Foo { pub n: std::cell::Cell<u8> }\nimpl Display for Foo { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { self.n.set(1); f.write_str("") } }\n')]),
('time','P17',[('src/lib.rs','    let ops = op::parse(input);','    let t = std::time::Instant::now();\n    let ops = op::parse(input);\n    if t.elapsed().as_secs() > 9 { return deserialize("x"); }')]),
]
