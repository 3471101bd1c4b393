PN='src/nodes/paragraph.rs'; HL='src/nodes/highlight.rs'; IM='src/nodes/image.rs'; LI='src/nodes/list_item.rs'; OP='src/op/mod.rs'
def a(x): return '    #[cfg_attr(feature = "serde", serde(%s))]\n'%x
T='#[cfg_attr(feature = "serde", serde(tag = "type", content = "value"))]\npub enum ParagraphNodes {'
M=[
('skip-field','P20',[(HL,'    pub icon: O',a('skip')+'    pub icon: O')]),
('skip-if-vec','P20',[(HL,'    pub body: V',a('skip_serializing_if = "Vec::is_empty"')+'    pub body: V')]),
('asym','P20',[(IM,'    pub src: S',a('rename(serialize = "url")')+'    pub src: S')]),
('clash','P20',[(IM,'    pub src: S',a('alias = "alt"')+'    pub src: S')]),
('untagged','P20',[(PN,T,T.replace('tag = "type", content = "value"','untagged'))]),
('nocontent','P20',[(PN,T,T.replace(', content = "value"',''))]),
('variant-skip','P20',[(OP,'    Strikethrough,',a('skip_serializing')+'    Strikethrough,')]),
('other','P20',[(OP,'pub enum Node {\n    Anchor,','pub enum Node {\n'+a('rename = "bold"')+'    Anchor,'),(OP,'pub enum Node {','#[cfg_attr(feature = "serde", serde(rename_all = "lowercase"))]\npub enum Node {')]),
('ok-rename-all','P20',[(OP,'pub enum Node {','#[cfg_attr(feature = "serde", serde(rename_all = "snake_case"))]\npub enum Node {'),(IM,'    pub src: S',a('rename = "url", alias = "src"')+'    pub src: S')]),
('ok-skipif','P20',[(HL,'    pub icon: O',a('default, skip_serializing_if = "Option::is_none"')+'    pub icon: O'),(HL,'    pub body: V',a('default, skip_serializing_if = "Vec::is_empty"')+'    pub body: V')]),
('ok-tagrename','P20',[(PN,T,T.replace('content = "value"','content = "data"'))]),
]
