pub mod elements {
    #[derive(Clone, Debug, PartialEq)] pub enum Instruction { I32Const(i32), I64Const(i64), End }
    #[derive(Clone, Debug)] pub enum InitExpr { Raw(Vec<u8>), Code(Vec<Instruction>) }
    impl InitExpr { pub fn new(c: Vec<Instruction>) -> Self { InitExpr::Code(c) } }
    #[derive(Clone, Debug)] pub struct GlobalEntry { pub(crate) ty: [u8; 2], pub(crate) init: InitExpr }
    impl GlobalEntry { pub fn init_expr_mut(&mut self) -> &mut InitExpr { &mut self.init } }
    #[derive(Clone, Debug, Default)] pub struct GlobalSection(pub(crate) Vec<GlobalEntry>);
    impl GlobalSection { pub fn entries_mut(&mut self) -> &mut Vec<GlobalEntry> { &mut self.0 } }
    #[derive(Clone, Debug)] pub enum Section { Raw(u8, Vec<u8>), Global(GlobalSection) }
    #[derive(Clone, Debug)] pub struct Module(pub(crate) Vec<Section>);
    impl Module { pub fn global_section_mut(&mut self) -> Option<&mut GlobalSection> { self.0.iter_mut().find_map(|s| if let Section::Global(g) = s { Some(g) } else { None }) } }
    pub(crate) fn uleb(b: &[u8], i: &mut usize) -> Result<u32, Error> { let mut r = 0u64; let mut s = 0; loop { let x = *b.get(*i).ok_or(Error("eof"))?; *i += 1; r |= ((x & 0x7f) as u64) << s; s += 7; if x & 0x80 == 0 { return Ok(r as u32) } } }
    pub(crate) fn put_uleb(mut v: u32, o: &mut Vec<u8>) { loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 { o.push(b); return } o.push(b | 0x80) } }
    pub(crate) fn put_sleb(mut v: i64, o: &mut Vec<u8>) { loop { let b = (v & 0x7f) as u8; v >>= 7; if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) { o.push(b); return } o.push(b | 0x80) } }
    #[derive(Debug)] pub struct Error(pub &'static str);
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
}
pub mod builder {
    use super::elements::Module;
    pub struct ModuleBuilder(Option<Module>);
    pub fn module() -> ModuleBuilder { ModuleBuilder(None) }
    impl ModuleBuilder { pub fn with_module(self, m: Module) -> Self { ModuleBuilder(Some(m)) } pub fn build(self) -> Module { self.0.unwrap() } }
}
use elements::*;
pub fn deserialize_buffer(b: &[u8]) -> Result<Module, Error> {
    if b.len() < 8 || &b[..8] != b"\0asm\x01\0\0\0" { return Err(Error("not wasm")) }
    let mut i = 8; let mut out = vec![];
    while i < b.len() {
        let id = b[i]; i += 1;
        let n = uleb(b, &mut i)? as usize;
        let body = b.get(i..i + n).ok_or(Error("eof"))?; i += n;
        if id == 6 {
            let mut j = 0; let cnt = uleb(body, &mut j)?; let mut g = vec![];
            for _ in 0..cnt {
                let ty = [body[j], body[j + 1]]; j += 2; let s = j;
                loop { match body[j] { 0x0b => { j += 1; break } 0x41 | 0x42 => { j += 1; while body[j] & 0x80 != 0 { j += 1 } j += 1 } 0x23 => { j += 1; uleb(body, &mut j)?; } 0x43 => j += 5, 0x44 => j += 9, _ => return Err(Error("init expr")) } }
                g.push(GlobalEntry { ty, init: InitExpr::Raw(body[s..j].to_vec()) });
            }
            out.push(Section::Global(GlobalSection(g)));
        } else { out.push(Section::Raw(id, body.to_vec())) }
    }
    Ok(Module(out))
}
pub fn serialize(m: Module) -> Result<Vec<u8>, Error> {
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    for s in m.0 {
        let (id, body) = match s { Section::Raw(id, b) => (id, b), Section::Global(g) => {
            let mut b = vec![]; put_uleb(g.0.len() as u32, &mut b);
            for e in g.0 { b.extend_from_slice(&e.ty); match e.init { InitExpr::Raw(r) => b.extend(r), InitExpr::Code(c) => for x in c { match x { Instruction::I32Const(v) => { b.push(0x41); put_sleb(v as i64, &mut b) } Instruction::I64Const(v) => { b.push(0x42); put_sleb(v, &mut b) } Instruction::End => b.push(0x0b) } } } }
            (6, b)
        } };
        o.push(id); put_uleb(body.len() as u32, &mut o); o.extend(body);
    }
    Ok(o)
}
